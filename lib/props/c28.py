from pv import *
import struct, subprocess
from pwtools import dcd, crys, parse

RULE = ('binary DCD files built byte by byte (header of LAMMPS: step count, cosines; of CP2K: no step count, degrees) with random cells, atoms and steps, read by all three readers; every truncation point and '
        'damaged headers for the python readers; non-trivial if there is more than one step or atom')
NOTE = 'files are little-endian with one fixed title block, as the module documents; the Fortran reader stops the process on truncated files, so that is tested in a child process (a few cases)'


def block(b):
    return struct.pack('<i', len(b)) + b + struct.pack('<i', len(b))


def dcd_bytes(cc, co, flavor, timestep=0.5, hdr_nstep=None):
    n, nat = co.shape[:2]
    nset = (n if flavor == 'lammps' else 0) if hdr_nstep is None else hdr_nstep
    ints9 = [nset, 1, 10] + [0] * 6
    h = b'CORD' + struct.pack('<9i', *ints9) + struct.pack('<f', timestep) + struct.pack('<10i', *([1] + [0] * 8 + [24]))
    out = block(h)
    out += block(struct.pack('<i', 2) + b'REMARK one'.ljust(80) + b'REMARK two'.ljust(80))
    out += block(struct.pack('<i', nat))
    frames = []
    for c, x in zip(cc, co):
        a, b, cl, al, be, ga = c
        f = block(struct.pack('<6d', a, ga, b, be, al, cl))
        for k in range(3):
            f += block(x[:, k].astype('<f4').tobytes())
        frames.append(f)
    return out, frames


def data(r, n, nat, flavor):
    cc = np.concatenate([r.uniform(.5, 80, (n, 3)), r.uniform(40, 140, (n, 3))], axis=1)
    if r.random() < .3:
        cc[:, 3:] = r.choice([60., 90., 120.], size=(n, 3)) if r.random() < .5 else 90.0
    co = (r.normal(size=(n, nat, 3)) * 10.0**r.integers(-3, 4)).astype(np.float32)
    st_ = np.where(cc[:, 3:] == 90, 0.0, np.cos(np.radians(cc[:, 3:]))) if flavor == 'lammps' else cc[:, 3:]
    return cc, np.concatenate([cc[:, :3], st_], axis=1), co


def check(t, got, cc, stored, co, conv, msg):
    gc, gx = got
    t.shape(gc, cc.shape, msg)
    t.shape(gx, co.shape, msg)
    t.ok(gx.dtype == np.float32 and gc.dtype == np.float64, msg + ': types')
    t.ok(np.array_equal(gx, co), msg + ': coords')
    t.ok(np.array_equal(gc[:, :3], cc[:, :3]), msg + ': lengths')
    if conv:
        t.close(gc[:, 3:], cc[:, 3:], msg + ': angles', rtol=1e-10)
    else:
        t.ok(np.array_equal(gc[:, 3:], stored[:, 3:]), msg + ': stored angles')


base = dict(seed=seeds, n=sizes(1, 12, 70, 130, 300), nat=sizes(1, 20, 70, 130, 600), flavor=pick(['lammps', 'cp2k']), conv=bools)


@sub(D(**base, ts=floats(0.001, 50), name=pick(['a.dcd', 'with space.dcd', 'x' * 200])), quick=250, thorough=4000)
def readers(case, t):
    r = rng(case)
    cc, stored, co = data(r, case['n'], case['nat'], case['flavor'])
    conv = case['conv'] and case['flavor'] == 'lammps'
    t.nontrivial(case['n'] > 1 or case['nat'] > 1)
    with tmpdir() as d:
        fn = os.path.join(d, case['name'])
        h, fr = dcd_bytes(stored, co, case['flavor'], case['ts'])
        raw = h + b''.join(fr)
        open(fn, 'wb').write(raw)
        kw = dict(convang=True) if conv else {} if case['seed'] % 2 else dict(convang=False)
        check(t, dcd.read_dcd_data(fn, **kw), cc, stored, co, conv, 'read_dcd_data')
        check(t, dcd.read_dcd_data_ref(fn, **kw), cc, stored, co, conv, 'read_dcd_data_ref')
        check(t, dcd.read_dcd_data_f(fn, **kw), cc, stored, co, conv, 'read_dcd_data_f')
        if case['flavor'] == 'lammps':
            check(t, dcd.read_dcd_data_f(fn, nstephdr=True, **kw), cc, stored, co, conv, 'read_dcd_data_f(nstephdr)')
        hd = dcd.read_dcd_header(fn)
        t.eq(int(hd['natoms']), case['nat'], 'natoms in header')
        t.eq(int(hd['9int'][0]), case['n'] if case['flavor'] == 'lammps' else 0, 'nstep in header')
        t.ok(hd['hdr'] == b'CORD', 'magic')
        t.ok(hd['timestep'] == np.float32(case['ts']), 'timestep')
        t.eq([int(hd[k]) for k in ('blk0-0', 'blk0-1', 'blk1-0', 'blk1-1', 'blk2-0', 'blk2-1', 'ntitle')], [84, 84, 164, 164, 4, 4, 2], 'markers')
        t.ok(hd['remark1'].startswith(b'REMARK one'), 'remark')
        t.ok(open(fn, 'rb').read() == raw, 'file unchanged')


@sub(D(**base, hdr=ints(-3, 30)), quick=80, thorough=800)
def header_steps_are_not_trusted(case, t):
    """the number of steps comes from the data unless nstephdr is used (file still being written, CP2K)"""
    r = rng(case)
    cc, stored, co = data(r, case['n'], case['nat'], case['flavor'])
    t.nontrivial(case['hdr'] != case['n'])
    with tmpdir() as d:
        fn = os.path.join(d, 'a')
        h, fr = dcd_bytes(stored, co, case['flavor'], hdr_nstep=case['hdr'])
        open(fn, 'wb').write(h + b''.join(fr))
        for f in (dcd.read_dcd_data, dcd.read_dcd_data_ref, dcd.read_dcd_data_f):
            check(t, f(fn), cc, stored, co, False, f.__name__)
        if 0 < case['hdr'] <= case['n']:
            m = case['hdr']
            check(t, dcd.read_dcd_data_f(fn, nstephdr=True), cc[:m], stored[:m], co[:m], False, 'first steps')


@sub(D(**base, where=floats(0, 1), extra=bools), quick=250, thorough=4000)
def truncated(case, t):
    r = rng(case)
    cc, stored, co = data(r, case['n'], case['nat'], case['flavor'])
    with tmpdir() as d:
        fn = os.path.join(d, 'a')
        h, fr = dcd_bytes(stored, co, case['flavor'])
        raw = h + b''.join(fr)
        cut = int(round(case['where'] * len(raw)))
        if case['extra']:
            raw, nfull, rest = raw + b'x' * int(1 + cut % 40), case['n'], 1
        else:
            raw = raw[:cut]
            nfull, rest = divmod(len(raw) - len(h), len(fr[0]))
        open(fn, 'wb').write(raw)
        t.nontrivial(nfull > 0)
        if len(raw) < len(h):
            for f in (dcd.read_dcd_data, dcd.read_dcd_data_ref):
                with t.raises(msg='%s: truncated header' % f.__name__):
                    f(fn)
            return
        if rest:
            with t.raises(AssertionError, msg='read_dcd_data: incomplete last step'):
                dcd.read_dcd_data(fn)
        elif nfull:
            check(t, dcd.read_dcd_data(fn), cc[:nfull], stored[:nfull], co[:nfull], False, 'read_dcd_data')
        if nfull:
            check(t, dcd.read_dcd_data_ref(fn), cc[:nfull], stored[:nfull], co[:nfull], False, 'read_dcd_data_ref: complete steps')


CHILD = '''
import sys, numpy as np
from pwtools import dcd
a, b = dcd.read_dcd_data_f(sys.argv[1])
np.savez(sys.argv[2], a=a, b=b)
'''


@sub(D(seed=seeds, n=ints(1, 3), nat=ints(1, 5), where=floats(0, 1)), quick=6, thorough=80, budget=(12, 120))
def truncated_fortran(case, t):
    """never wrong data: either the process stops with an error or the complete steps are returned"""
    r = rng(case)
    cc, stored, co = data(r, case['n'], case['nat'], 'cp2k')
    t.nontrivial()
    with tmpdir() as d:
        fn, out = os.path.join(d, 'a'), os.path.join(d, 'o.npz')
        h, fr = dcd_bytes(stored, co, 'cp2k')
        raw = h + b''.join(fr)
        raw = raw[:max(1, int(round(case['where'] * len(raw))))]
        open(fn, 'wb').write(raw)
        nfull = max(0, (len(raw) - len(h)) // len(fr[0]))
        p = subprocess.run([sys.executable, '-c', CHILD, fn, out], capture_output=True, cwd=d, env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path)))
        if p.returncode == 0:
            z = np.load(out)
            # all data of the last step is there if only (part of) its closing record marker is cut off
            if len(z['a']) > nfull and (len(raw) - len(h)) % len(fr[0]) >= len(fr[0]) - 4:
                nfull += 1
            check(t, (z['a'], z['b']), cc[:nfull], stored[:nfull], co[:nfull], False, 'complete steps')


@sub(D(**base), quick=60, thorough=800)
def as_trajectory(case, t):
    """cell and coordinates form the trajectory they came from (a along x, b in the x-y plane)"""
    r = rng(case)
    cc, stored, co = data(r, case['n'], case['nat'], case['flavor'])
    cc[:, 3:] = np.clip(cc[:, 3:], 75, 105)
    stored[:, 3:] = np.cos(np.radians(cc[:, 3:])) if case['flavor'] == 'lammps' else cc[:, 3:]
    with tmpdir() as d:
        fn = os.path.join(d, 'a')
        h, fr = dcd_bytes(stored, co, case['flavor'])
        open(fn, 'wb').write(h + b''.join(fr))
        a, x = dcd.read_dcd_data(fn, convang=case['flavor'] == 'lammps')
        tr = crys.Trajectory(coords=x, cryst_const=a)
        t.nontrivial(case['n'] > 1)
        t.eq((tr.nstep, tr.natoms), (case['n'], case['nat']), 'size')
        for i in range(case['n']):
            C = tr.cell[i]
            t.close(C[0, 1:], [0, 0], 'a along x', atol=1e-10)
            t.close(C[1, 2], 0, 'b in xy', atol=1e-10)
            L = np.linalg.norm(C, axis=1)
            t.close(L, cc[i, :3], 'lengths', rtol=1e-9)
            ang = [np.degrees(np.arccos(np.dot(C[p], C[q]) / L[p] / L[q])) for p, q in ((1, 2), (0, 2), (0, 1))]
            t.close(ang, cc[i, 3:], 'angles', rtol=1e-8)
            t.close(tr.coords_frac[i] @ C, co[i], 'coords', rtol=1e-5, atol=1e-4 * np.abs(co).max())
