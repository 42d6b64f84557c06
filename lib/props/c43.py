from pv import *
import contextlib
import io as _io
import re
import runpy
import stat
import subprocess
import pwtools
from mdgen import gen_cif, gen_pdb, step_table, xyz_frames, fl, fm, SY

RULE = ('random CIF, PDB, DOS and dispersion files and random MD output files (steps start anywhere, restarts, missing files), scripts from bin/ run in a scratch directory with generated arguments; '
        'non-trivial if there is more than one atom type or more than one time step')
BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(pwtools.__file__)))), 'bin')
BOHR = 0.52917721067


def script(name, *argv):
    """stdout of a python script run in this process"""
    out, err = _io.StringIO(), _io.StringIO()
    old = sys.argv
    sys.argv = [name] + list(argv)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(os.path.join(BIN, name), run_name='__main__')
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise RuntimeError('exit code %s' % e.code)
    finally:
        sys.argv = old
    return out.getvalue()


def proc(name, *argv, cwd=None, env=None):
    e = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(pwtools.__file__))))
    e['PATH'] = os.path.dirname(sys.executable) + ':' + e.get('PATH', '/usr/bin:/bin')
    e.update(env or {})
    return subprocess.run([os.path.join(BIN, name) if os.access(os.path.join(BIN, name), os.X_OK) else 'bash', *([] if os.access(os.path.join(BIN, name), os.X_OK) else [os.path.join(BIN, name)]), *argv],
                          cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)


def ccell(cc):
    """cell of a crystal, a along x"""
    a, b, c = cc[:3]
    al, be, ga = np.radians(cc[3:])
    x = c * np.cos(be)
    y = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    return np.array([[a, 0, 0], [b * np.cos(ga), b * np.sin(ga), 0], [x, y, np.sqrt(max(c * c - x * x - y * y, 0))]])


def floats_of(txt):
    return np.array([float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', txt)])


def block(out, head, n):
    """n lines of numbers (or symbol + numbers) after the line `head`"""
    ll = out.splitlines()
    i = [k for k, x in enumerate(ll) if x.strip() == head.strip()]
    assert len(i) >= 1, 'line %r not found' % head
    return [x.split() for x in ll[i[0] + 1:i[0] + 1 + n]]


def atoms_of(t, rows, msg):
    sy = [x[0] for x in rows]
    return sy, np.array([[float(y) for y in x[1:]] for x in rows])




@sub(D(seed=seeds, nat=sizes(1, 9, 40, 110), P=bools), quick=60, thorough=500, budget=(60, 240))
def cif2any(case, t):
    """every section of the output holds the structure of the file, in the units of the section"""
    r = rng(case)
    R = gen_cif(r, case['nat'])
    cc, cf, sy = R.exp['cryst_const'], R.exp['coords_frac'], R.exp['symbols']
    C = ccell(cc)
    if abs(np.linalg.det(C)) < 1e-2 * np.prod(cc[:3]):
        t.skip('flat cell')
    t.nontrivial(len(set(sy)) > 1)
    with tmpdir() as d:
        R.write(d)
        fn = os.path.join(d, R.main)
        before = open(fn).read()
        out = script('cif2any.py', fn)
        t.eq(open(fn).read(), before, 'input file')
        t.eq(sorted(os.listdir(d)), [R.main], 'files')
    types = sorted(set(sy))
    import ase.data
    Z = {s: ase.data.atomic_numbers[s] for s in types}
    B = C / BOHR
    K = dict(rtol=2e-8, atol=1e-9)
    sec = {}
    bar = '-' * 78
    parts = re.split(re.escape(bar) + r'\n(.*)\n' + re.escape(bar) + r'\n', out)
    for k in range(1, len(parts), 2):
        sec[parts[k].strip()] = parts[k + 1]
    t.eq(sorted(sec), ['ABINIT', 'CP2K', 'CPMD', 'PWSCF', 'general crystal information'], 'sections')
    # pw.x
    p = sec['PWSCF']
    cd = [float(x) for x in re.findall(r'celldm\(\d\) = (\S+)', p)]
    t.close(cd, np.append([cc[0] / BOHR, cc[1] / cc[0], cc[2] / cc[0]], np.cos(np.radians(cc[3:]))), 'celldm', **K)
    t.eq(re.findall(r'nat = (\d+)', p), [str(len(sy))] * 2, 'nat')
    t.eq(re.findall(r'ntyp = (\d+)', p), [str(len(types))] * 2, 'ntyp')
    g = lambda h, s, n: np.array([[float(y) for y in x] for x in block(s, h, n)])
    for h, ref in (('alat', C / cc[0]), ('angstrom', C), ('bohr', B)):
        t.close(g('CELL_PARAMETERS ' + h, p, 3), ref, 'CELL_PARAMETERS ' + h, rtol=2e-8, atol=1e-8)
    sp = block(p, 'ATOMIC_SPECIES', len(types))
    t.eq([x[0] for x in sp], types, 'ATOMIC_SPECIES')
    t.close([float(x[1]) for x in sp], [ase.data.atomic_masses[Z[s]] for s in types], 'mass', rtol=2e-3)
    t.eq([x[2] for x in sp], [s + '.UPF' for s in types], 'pseudopotentials')
    s2, x2 = atoms_of(t, block(p, 'ATOMIC_POSITIONS crystal', len(sy)), 'positions')
    t.eq(s2, sy, 'symbols')
    t.close(x2, cf, 'fractional coordinates', rtol=1e-10, atol=1e-12)
    t.eq(len(p.split('ATOMIC_POSITIONS crystal')[1].strip().splitlines()), len(sy), 'number of positions')
    # abinit
    p = sec['ABINIT']
    v = lambda k: re.search(r'^%s (.*)$' % k, p, re.M).group(1).split()
    t.eq(v('natom'), [str(len(sy))], 'natom')
    t.eq(v('ntypat'), [str(len(types))], 'ntypat')
    typat, znucl = [int(x) for x in v('typat')], [int(x) for x in v('znucl')]
    if t.eq(len(znucl), len(types), 'abinit: number of znucl') and t.eq(len(typat), len(sy), 'abinit: number of typat') and t.ok(set(typat) == set(range(1, len(types) + 1)), 'typat is 1..ntypat: %s' % typat):
        t.eq([znucl[i - 1] for i in typat], [Z[s] for s in sy], 'abinit: nuclear charge of each atom')
    t.close([float(x) for x in v('acell')], cc[:3] / BOHR, 'acell', **K)
    t.close([float(x) for x in v('angdeg')], cc[3:], 'angdeg', **K)
    t.close(g('xred', p, len(sy)), cf, 'xred', rtol=1e-10, atol=1e-12)
    pp = p.split('pseudopotential order:')[1].split('\n')
    pp = [x.split() for x in pp if x.strip()]
    t.eq([(x[0], int(x[1])) for x in pp], [(s, Z[s]) for s in types], 'pseudopotential order')
    t.eq([Z[x[0]] for x in pp], znucl, 'pseudopotentials in the order of znucl')
    # cpmd
    p = sec['CPMD']
    c6 = [float(x[0]) for x in block(p, 'CELL ABSOLUTE DEGREE', 6)]
    t.close(c6, np.append(cc[:3] / BOHR, cc[3:]), 'CPMD cell', **K)
    at = p.split('&ATOMS')[1].split('&END')[0].strip().splitlines()
    got, i = {}, 0
    while i < len(at):
        s = re.match(r'\*(\w+)\.psp', at[i].strip()).group(1)
        t.ok('LMAX_%s ' % s.upper() in at[i + 1], 'LMAX placeholder ' + at[i + 1])
        n = int(at[i + 2])
        got[s] = np.array([[float(y) for y in x.split()] for x in at[i + 3:i + 3 + n]])
        i += 3 + n
    t.eq(sorted(got), types, 'CPMD atom types')
    for s in types:
        t.close(got[s], cf[np.array(sy) == s], 'CPMD positions of ' + s, rtol=1e-10, atol=1e-12)
    # cp2k
    p = sec['CP2K']
    v = lambda k: np.array([float(x) for x in re.search(r'^\s*%s (.*)$' % k, p, re.M).group(1).split()])
    t.close(v('abc'), cc[:3], 'CP2K abc', **K)
    t.close(v('alpha_beta_gamma'), cc[3:], 'CP2K angles', **K)
    s2, x2 = atoms_of(t, block(p, 'scaled t', len(sy)), 'positions')
    t.eq(s2, sy, 'CP2K symbols')
    t.close(x2, cf, 'CP2K coordinates', rtol=1e-10, atol=1e-12)
    t.eq(re.findall(r'&kind (\w+)', p), types, 'CP2K kinds')
    t.eq(re.findall(r'XXXBASISSET_(\w+)', p), types, 'CP2K basis sets')
    # reciprocal lattice and k-points
    p = sec['general crystal information']
    G = 2 * np.pi * np.linalg.inv(C).T
    t.close(g('reciprocal cell [1/Bohr]:', p, 3), G * BOHR, 'reciprocal cell [1/Bohr]', rtol=1e-7, atol=1e-8 * abs(G).max())
    t.close(g('reciprocal cell [1/Ang]:', p, 3), G, 'reciprocal cell [1/Ang]', rtol=1e-7, atol=1e-8 * abs(G).max())
    n = np.linalg.norm(G, axis=1)
    t.close(g('relation of recip. vector lengths (a:b:c)', p, 1)[0], n / n.min(), 'relation of lengths', rtol=1e-7)
    ks = re.findall(r'h = (\S+)\s+size = (\d+)\s+(\d+)\s+(\d+)', p)
    t.eq([x[0] for x in ks], ['%.3f' % h for h in np.arange(2, 10) / 10], 'values of h')
    for x in ks:
        q = n / float(x[0])
        t.ok(all(int(k) in {max(1, round(z - 1e-6)), max(1, round(z + 1e-6))} for k, z in zip(x[1:], q)), 'k grid for h=%s: %s, %s' % (x[0], x[1:], q))


@sub(D(seed=seeds, nat=ints(1, 9)), quick=30, thorough=300, budget=(30, 120))
def cif2sgroup(case, t):
    r = rng(case)
    R = gen_cif(r, case['nat'])
    cc, cf, sy = R.exp['cryst_const'], R.exp['coords_frac'], R.exp['symbols']
    t.nontrivial(len(set(sy)) > 1)
    with tmpdir() as d:
        R.write(d)
        out = script('cif2sgroup.py', os.path.join(d, R.main))
        t.eq(os.listdir(d), [R.main], 'files')
    ll = [x for x in out.splitlines() if x.strip() and not x.lstrip().startswith('/')]
    t.eq(ll[0].strip(), 'P', 'lattice')
    t.close([float(x) for x in ll[1].split()], cc, 'cell', rtol=1e-9)
    t.eq(int(ll[2]), len(sy), 'number of atoms')
    t.eq(len(ll), 3 + 2 * len(sy), 'lines')
    t.eq([x.strip() for x in ll[4::2]], sy, 'symbols')
    t.close([[float(y) for y in x.split()] for x in ll[3::2]], cf, 'positions', rtol=1e-10, atol=1e-12)


@sub(D(seed=seeds, nat=ints(1, 9), given=bools, proc=ints(0, 7)), quick=30, thorough=300, budget=(40, 150))
def pdb2cif(case, t):
    from pwtools import io
    r = rng(case)
    R = gen_pdb(r, case['nat'])
    t.nontrivial(case['nat'] > 1)
    with tmpdir() as d:
        R.write(d)
        fn = os.path.join(d, R.main)
        before = open(fn).read()
        o = os.path.join(d, 'out.cif') if case['given'] else fn + '.cif'
        a = [fn, o] if case['given'] else [fn]
        if case['proc'] == 0:
            p = proc('pdb2cif.py', *a)
            t.eq(p.returncode, 0, 'exit code: ' + p.stdout[-300:])
        else:
            script('pdb2cif.py', *a)
        t.eq(sorted(os.listdir(d)), sorted([R.main, os.path.basename(o)]), 'files')
        t.eq(open(fn).read(), before, 'input file')
        S, P = io.read_cif(o), io.read_pdb(fn)
        # through the whole chain: pdb -> cif -> sections for the codes
        out = script('cif2any.py', o)
        h = script('pdb2cif.py', '-h')
        t.ok('usage' in h, 'help')
        t.eq(sorted(os.listdir(d)), sorted([R.main, os.path.basename(o)]), 'files after help')
    cc, x, sy = R.exp['cryst_const'], R.exp['coords'], R.exp['symbols']
    C = ccell(cc)
    if abs(np.linalg.det(C)) < 1e-2 * np.prod(cc[:3]):
        t.skip('flat cell')
    t.eq(list(S.symbols), sy, 'symbols')
    t.close(S.cryst_const, cc, 'cell', rtol=1e-9)
    # file coordinates are Cartesian in the standard orientation
    t.close(S.coords_frac, x @ np.linalg.inv(C), 'positions', rtol=1e-7, atol=1e-7)
    s2, x2 = atoms_of(t, block(out, 'ATOMIC_POSITIONS crystal', len(sy)), 'positions')
    t.close(x2 @ C, x, 'chain pdb, cif, pw.x', rtol=1e-6, atol=1e-6)


@sub(D(seed=seeds, nat=ints(1, 200), n=ints(10, 400), comment=bools), quick=60, thorough=400)
def matdyn2fqha(case, t):
    """header: atoms from the integral of the DOS; then the DOS file unchanged"""
    r = rng(case)
    t.nontrivial(True)
    f = np.linspace(0, r.uniform(100, 3000), case['n'])
    w = np.exp(-0.5 * ((f - f[-1] * .5) / f[-1] * 6)**2) + .1 * r.uniform(size=1)
    I = np.trapezoid(w, f) if hasattr(np, 'trapezoid') else np.trapz(w, f)
    w *= 3 * case['nat'] / I
    body = ''.join('%16.8E%16.8E\n' % z for z in zip(f, w))
    if case['comment']:
        body = '# Frequency[cm^-1] DOS\n' + body
    with tmpdir() as d:
        fn = os.path.join(d, 'matdyn.phdos')
        with open(fn, 'w') as h:
            h.write(body)
        out = script('matdyn2fqha.py', fn)
        t.eq(os.listdir(d), ['matdyn.phdos'], 'files')
    l = out.splitlines()
    t.eq(int(l[0]), case['nat'], 'natom')
    h = l[1].split()
    t.eq((int(h[0]), int(h[1])), (case['nat'], case['n']), 'natom, nstep')
    t.close([float(x) for x in h[2:]], [f[-1], f[1] - f[0]], 'emax, de', rtol=0, atol=2e-6 + 1e-8 * f[-1])
    t.eq('\n'.join(l[2:]).strip(), body.strip(), 'the DOS itself')


@sub(D(seed=seeds, n=ints(2, 30), nb=ints(1, 4)), quick=25, thorough=200)
def plot_dispersion(case, t):
    """the lines drawn are the bands over the path coordinate"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    r = rng(case)
    n, nb = case['n'], 3 * case['nb']
    t.nontrivial(n > 2)
    ks = np.round(np.cumsum(r.uniform(-.2, .3, (n, 3)), axis=0), 6)
    f = np.round(np.sort(r.uniform(-10, 900, (n, nb)), axis=1), 4)
    shown = []
    with tmpdir() as d:
        fn = os.path.join(d, 'x.freq')
        with open(fn, 'w') as h:
            h.write(' &plot nbnd=%4d, nks=%4d /\n' % (nb, n))
            for a, b in zip(ks, f):
                h.write('          %10.6f%10.6f%10.6f\n' % tuple(a) + ''.join(''.join('%10.4f' % z for z in b[j:j + 6]) + '\n' for j in range(0, nb, 6)))
        old = plt.show
        plt.close('all')
        plt.show = lambda *a, **k: shown.append([(l.get_xdata(), l.get_ydata()) for l in plt.gca().lines])
        try:
            script('plot_dispersion.py', fn)
        finally:
            plt.show = old
            plt.close('all')
    if t.eq(len(shown), 1, 'number of figures shown') and t.eq(len(shown[0]), nb, 'number of bands'):
        s = np.append(0, np.cumsum(np.linalg.norm(np.diff(ks, axis=0), axis=1)))
        for j, (x, y) in enumerate(shown[0]):
            t.close(x, s, 'path coordinate', rtol=1e-10, atol=1e-12)
            t.close(y, f[:, j], 'band %d' % j, rtol=0)


def chunks_cpmd(r, names, s0, n, nat, every, sy):
    """{file: [(step, text)]}"""
    F = {k: [] for k in names}
    for s in range(s0, s0 + n):
        for k in names:
            if s % every[k]:
                continue
            row = lambda m: ''.join(fm(x, 20, 10) for x in r.normal(size=m) * 10.0**r.integers(-2, 3))
            if k == 'CELL':
                x = '   CELL PARAMETERS at Step:%12d\n' % s + ''.join('  ' + row(3) + '\n' for _ in range(3))
            elif k == 'STRESS':
                x = '   TOTAL STRESS TENSOR (kB): Step:%12d\n' % s + ''.join('  ' + row(3) + '\n' for _ in range(3))
            elif k == 'ENERGIES':
                x = '%10d%s\n' % (s, row(8))
            elif k == 'TRAJEC.xyz':
                x = '%12d\n STEP:%12d\n' % (nat, s) + ''.join('%4s%s\n' % (y, row(3)) for y in sy)
            else:
                x = ''.join('%7d%s\n' % (s, row(9 if k[0] == 'F' else 6)) for _ in range(nat))
            F[k].append((s, x))
    return F


CPMD = ['CELL', 'ENERGIES', 'STRESS', 'TRAJECTORY', 'FTRAJECTORY', 'TRAJEC.xyz']
CUT = dict(seed=seeds, s0=pick([1, 2, 7, 9, 95, 998, 8390]), n=ints(1, 14), nat=ints(1, 12), cut=ints(0, 13), sim=pick([0, 0, 0, 1]), missing=st.lists(ints(0, 5), max_size=4), other=bools, log=ints(0, 3))


@sub(D(every=st.lists(pick([1, 1, 1, 2, 5]), min_size=6, max_size=6), stdout=pick([0, 0, 0, 1]), **CUT), quick=80, thorough=600, budget=(40, 200))
def cut_cpmd(case, t):
    r = rng(case)
    nat, n, s0 = case['nat'], case['n'], case['s0']
    names = [k for i, k in enumerate(CPMD) if i not in case['missing']]
    ev = dict(zip(CPMD, case['every']))
    sy = [str(x) for x in r.choice(SY, nat)]
    F = chunks_cpmd(r, names, s0, n, nat, ev, sy)
    step = s0 + case['cut'] % n
    t.nontrivial(n > 1 and len(names) > 1)
    with tmpdir() as d:
        for k in names:
            with open(os.path.join(d, k), 'w') as h:
                h.write(''.join(x for _, x in F[k]))
        with open(os.path.join(d, 'GEOMETRY'), 'w') as h:
            h.write('      %d   1.0\n' % step)
        a = (['-s'] if case['sim'] else []) + (['--not-inplace'] if case['stdout'] else [])
        p = proc('cut-cpmd.sh', *a, d, str(step))
        t.eq(p.returncode, 0, 'exit code ' + p.stdout[-200:])
        for k in CPMD:
            t.eq('not found: %s/%s' % (d, k) in p.stdout, k not in names, 'message about missing file ' + k)
        same_ = case['sim'] or case['stdout']
        for k in names:
            now = open(os.path.join(d, k)).read()
            full = ''.join(x for _, x in F[k])
            # the step has to be in the file
            have = any(s == step for s, _ in F[k])
            keep = ''.join(x for s, x in F[k] if s < step) if have else full
            t.eq(now, full if same_ else keep, '%s cut at step %i of %i..%i' % (k, step, s0, s0 + n - 1))
            if case['stdout'] and not case['sim']:
                t.ok(keep in p.stdout, 'shortened %s on stdout' % k)
            if not same_:
                t.eq(open(os.path.join(d, k + '.bak')).read(), full, 'backup of ' + k)
        t.eq(sorted(os.listdir(d)), sorted(names + ['GEOMETRY'] + ([] if same_ else [k + '.bak' for k in names])), 'files')
        t.eq(open(os.path.join(d, 'GEOMETRY')).read(), '      %d   1.0\n' % step, 'other file')
        # wrong usage changes nothing
        before = {k: open(os.path.join(d, k)).read() for k in os.listdir(d)}
        for b in ([d], [d, str(step), 'x'], [os.path.join(d, 'nodir'), '1']):
            t.ok(proc('cut-cpmd.sh', *b).returncode != 0, 'usage error for %s' % (b[1:],))
        t.eq({k: open(os.path.join(d, k)).read() for k in os.listdir(d)}, before, 'files after usage errors')


CP2K = ['PROJECT-1.cell', 'PROJECT-1.ener', 'PROJECT-1.stress', 'PROJECT-frc-1.xyz', 'PROJECT-pos-1.xyz', 'PROJECT-vel-1.xyz']


@sub(D(restart=bools, **CUT), quick=80, thorough=600, budget=(40, 200))
def cut_cp2k(case, t):
    r = rng(case)
    nat, n, s0 = case['nat'], case['n'], case['s0']
    names = [k for i, k in enumerate(CP2K) if i not in case['missing']]
    sy = [str(x) for x in r.choice(SY, nat)]
    ts = .5
    step = s0 + case['cut'] % n
    t.nontrivial(n > 1 and len(names) > 1)
    F = {}
    en = fl(-r.uniform(0, 1000, n), 10)
    head = '#   Step   Time [fs]   1   2'
    for k in names:
        if k.endswith('xyz'):
            x = fl(r.normal(size=(n, nat, 3)), 10)
            F[k] = ('', [xyz_frames(r, sy, x[i:i + 1], s0 + i, ts, en[i:i + 1]) for i in range(n)])
        else:
            x = fl(r.uniform(-10, 10, (n, 9)), 10)
            F[k] = (head + '\n', [step_table('', x[i:i + 1], s0 + i, ts)[1:] for i in range(n)])
    with tmpdir() as d:
        for k, (h0, c) in F.items():
            with open(os.path.join(d, k), 'w') as h:
                h.write(h0 + ''.join(c))
        extra = []
        if case['restart']:
            with open(os.path.join(d, 'PROJECT-1.restart'), 'w') as h:
                h.write(' &MOTION\n   &MD\n     STEPS  1000\n     STEP_START_VAL  %d\n     TIME_START_VAL  %f\n   &END MD\n' % (step - 1, 12.))
            extra = ['PROJECT-1.restart']
        a = (['-s'] if case['sim'] else []) + [d] + ([] if case['restart'] else [str(step)])
        p = proc('cut-cp2k.sh', *a)
        t.eq(p.returncode, 0, 'exit code ' + p.stdout[-200:])
        t.ok(re.search(r'^step\s+=\s+%d$' % step, p.stdout, re.M), 'step reported ' + p.stdout[:300])
        for k, (h0, c) in F.items():
            now = open(os.path.join(d, k)).read()
            full = h0 + ''.join(c)
            t.eq(now, full if case['sim'] else h0 + ''.join(c[:step - s0]), '%s cut at step %i of %i..%i' % (k, step, s0, s0 + n - 1))
            if not case['sim']:
                t.eq(open(os.path.join(d, k + '.bak')).read(), full, 'backup of ' + k)
        t.eq(sorted(os.listdir(d)), sorted(names + extra + ([] if case['sim'] else [k + '.bak' for k in names])), 'files')
        if not case['sim'] and step > s0:
            # cutting again does nothing
            now = {k: open(os.path.join(d, k)).read() for k in names}
            proc('cut-cp2k.sh', d, str(step))
            t.eq({k: open(os.path.join(d, k)).read() for k in names}, now, 'files cut twice')
        if not case['restart']:
            before = {k: open(os.path.join(d, k)).read() for k in os.listdir(d)}
            t.ok(proc('cut-cp2k.sh', d).returncode != 0, 'no step and no restart file')
            t.eq({k: open(os.path.join(d, k)).read() for k in os.listdir(d)}, before, 'files after usage error')


FAKE_GMX = '''#!/bin/sh
# stand-in for "gmx insert-molecules": records its arguments, copies the prepared result
echo "$@" > "$GMX_ARGS"
o=
while [ $# -gt 0 ]; do
    case "$1" in
        -o) o=$2; shift;;
        -ci) cp "$2" "$GMX_ARGS.ci"; shift;;
        -f) cp "$2" "$GMX_ARGS.f"; shift;;
    esac
    shift
done
cp "$GMX_RESULT" "$o"
echo "Added 3 molecules (out of 3 requested)"
'''


@sub(D(seed=seeds, nat=ints(1, 6), nmol=ints(1, 3), ci=bools, opts=bools), quick=6, thorough=30, budget=(60, 240))
def solvate(case, t):
    """solvate.sh with a stand-in for gmx: arguments, intermediate and final files"""
    from pwtools import io
    r = rng(case)
    R, R2 = gen_pdb(r, case['nat']), gen_pdb(r, case['nat'] + 3 * case['nmol'])
    t.nontrivial(True)
    C = ccell(R2.exp['cryst_const'])
    if abs(np.linalg.det(C)) < 1e-2 * np.prod(R2.exp['cryst_const'][:3]):
        t.skip('flat cell')
    with tmpdir() as d:
        w, b = os.path.join(d, 'work'), os.path.join(d, 'fakebin')
        os.mkdir(w)
        os.mkdir(b)
        g = os.path.join(b, 'gmx')
        with open(g, 'w') as h:
            h.write(FAKE_GMX)
        os.chmod(g, 0o755)
        for n in ('pdb2cif.py', 'cif2any.py'):
            with open(os.path.join(b, n), 'w') as h:
                h.write('#!/bin/sh\nexec %s %s "$@"\n' % (sys.executable, os.path.join(BIN, n)))
            os.chmod(os.path.join(b, n), 0o755)
        start = R.files['x.pdb']
        with open(os.path.join(w, 'foo.pdb'), 'w') as h:
            h.write(start)
        with open(os.path.join(d, 'result.pdb'), 'w') as h:
            h.write(R2.files['x.pdb'])
        mol = 'ATOM      1  N   MOL     1       1.000   2.000   3.000  1.00  0.00\n'
        with open(os.path.join(w, 'mol.pdb'), 'w') as h:
            h.write(mol)
        opts = ['-nmol', str(case['nmol']), '-seed', '123'] if case['opts'] else []
        args = ['foo.pdb'] + (['-ci', 'mol.pdb'] if case['ci'] else []) + opts
        p = proc('solvate.sh', *args, cwd=w, env=dict(PATH=b + ':/usr/local/bin:/usr/bin:/bin', GMX_ARGS=os.path.join(d, 'args'), GMX_RESULT=os.path.join(d, 'result.pdb')))
        t.ok('Added 3 molecules' in p.stdout, 'summary ' + p.stdout[-300:])
        a = open(os.path.join(d, 'args')).read().split()
        t.eq(a[0], 'insert-molecules', 'gmx tool')
        for o in (opts[:2], opts[2:]):
            if o:
                t.ok(any(a[i:i + 2] == o for i in range(len(a))), 'option %s passed: %s' % (o, a))
        t.eq(a.count('-ci'), 1, 'one molecule to insert')
        t.eq(open(os.path.join(d, 'args.f')).read(), start, 'structure passed')
        ci = open(os.path.join(d, 'args.ci')).read()
        if case['ci']:
            t.eq(ci, mol, 'molecule passed')
        else:
            # water: two O-H bonds of 0.96 Ang, about 105 degrees
            x = np.array([[float(l[30 + 8 * i:38 + 8 * i]) for i in range(3)] for l in ci.splitlines() if l.startswith('ATOM')])
            t.eq(len(x), 3, 'atoms of water')
            u, v = x[1] - x[0], x[2] - x[0]
            t.close([np.linalg.norm(u), np.linalg.norm(v)], [.96, .96], 'O-H bonds', rtol=.02)
            t.close(np.degrees(np.arccos(u @ v / np.linalg.norm(u) / np.linalg.norm(v))), 105, 'H-O-H angle', rtol=.05)
        t.eq(open(os.path.join(w, 'foo.pdb')).read(), start, 'input structure')
        t.eq(open(os.path.join(w, 'foo_gmx.pdb')).read(), R2.files['x.pdb'], 'foo_gmx.pdb')
        S = io.read_cif(os.path.join(w, 'foo_gmx.cif'))
        t.eq(list(S.symbols), R2.exp['symbols'], 'symbols in foo_gmx.cif')
        t.close(S.coords_frac @ C, R2.exp['coords'], 'positions in foo_gmx.cif', rtol=1e-6, atol=1e-6)
        t.eq(open(os.path.join(w, 'foo_gmx.cif.txt')).read(), script('cif2any.py', os.path.join(w, 'foo_gmx.cif')), 'foo_gmx.cif.txt')
