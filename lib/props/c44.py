from pv import *
import contextlib
import io as _io
import glob
import time
import pv
from pwtools import crys, io, visualize as V

pv._tmp['unique'] = True       # viewers in the background

RULE = ('random structures and trajectories (cells of all kinds), the viewers replaced by scripts which record their arguments and copy the file they get, options, given and generated file names, failing viewers; '
        'non-trivial if there is more than one atom')
NOTE = 'the viewers themselves (VMD, XCrySDen, Jmol, Avogadro) are not installed'

VIEWER = '''#!/bin/sh
# stand-in for a viewer: $REC.args, $REC.file; prints $SAY, exit code $RC
i=0
while [ "$WAITGO" = 1 ] && [ ! -e "$REC.go" ] && [ $i -lt 60 ]; do sleep 0.1; i=$((i+1)); done
echo "$0 $@" > "$REC.args"
for a in "$@"; do f=$a; done
cp "$f" "$REC.file"
echo "$f" > "$REC.name"
echo "$SAY"
echo "to stderr" >&2
echo done > "$REC.done"
exit ${RC:-0}
'''

VMD = '''#!/usr/bin/env python3
import sys, re, os, shutil
a = sys.argv[1:]
s = open(a[a.index('-e') + 1]).read()
g = lambda k: re.search(r'set %s (.*)' % k, s).group(1).strip()
fn, typ = re.search(r'mol new (\\S+) type (\\S+)', s).groups()
shutil.copy(fn, os.environ['REC'] + '.file')
out = ['type ' + typ] + [k + ' ' + g(k).strip('"') for k in ('selstr1', 'selstr2', 'first', 'last', 'step', 'delta', 'rmax', 'usepbc')]
out += ['call ' + re.search(r'set result \\[(.*)\\]', s).group(1), 'args ' + ' '.join(a[:a.index('-e')])]
open(os.environ['REC'] + '.args', 'w').write('\\n'.join(out))
data = re.search(r'open "(.*)" w', s).group(1)
shutil.copy(os.environ['REC'] + '.data', data)
print('vmd says hello')
'''


@contextlib.contextmanager
def programs(d, names, txt, **env):
    b = os.path.join(d, 'fakebin')
    os.mkdir(b)
    for n in names:
        with open(os.path.join(b, n), 'w') as h:
            h.write(txt)
        os.chmod(os.path.join(b, n), 0o755)
    old = dict(os.environ)
    os.environ.update(PATH=b + ':' + old.get('PATH', '/usr/bin:/bin'), REC=os.path.join(d, 'rec'), **env)
    try:
        yield os.path.join(d, 'rec')
    finally:
        os.environ.clear()
        os.environ.update(old)


def make(case, sym=True):
    r = rng(case)
    n, ns = case['nat'], case['nstep']
    cell = make_cell(case['kind'], case['seed'])
    kw = dict(symbols=[str(x) for x in r.choice(['H', 'O', 'Al'], n)]) if sym else {}
    if ns == 0:
        return crys.Structure(coords_frac=r.uniform(0, 1, (n, 3)), cell=cell, **kw)
    return crys.Trajectory(coords_frac=r.uniform(0, 1, (ns, n, 3)), cell=cell, **kw)


def nfd():
    return len(os.listdir('/proc/self/fd'))


PRE = dict(xcrysden=('view_xcrysden', 'write_axsf', '.axsf', ['xcrysden', '--axsf']), axsf=('view_vmd_axsf', 'write_axsf', '.axsf', ['vmd']), xyz=('view_vmd_xyz', 'write_xyz', '.xyz', ['vmd']),
           jmol=('view_jmol', 'write_cif', '.cif', ['jmol']), avogadro=('view_avogadro', 'write_cif', '.cif', ['avogadro']), avogadro2=('view_avogadro', 'write_cif', '.cif', ['avogadro2']))


@sub(D(seed=seeds, kind=cellkinds, nat=sizes(1, 6, 40), nstep=ints(0, 3), prog=pick(sorted(PRE) + ['own']), log=bools, struct=bools, disp=bools, keep=bools, options=pick(['', '-e foo.tcl', '-a 1 --bb=2']),
       sym=pick([1, 1, 1, 0]), rc=pick([0, 0, 0, 3]), bg=pick([0, 0, 0, 1]), nowait=pick([0, 0, 0, 1]), old=bools), quick=120, thorough=1000, budget=(30, 200))
def viewers(case, t):
    """the viewer gets the file which the writer makes of the object; log, temp files, descriptors"""
    obj = make(case, case['sym'])
    prog = case['prog']
    t.nontrivial(case['nat'] > 1)
    with tmpdir() as d:
        tmp = os.path.join(d, 'tmp')
        os.mkdir(tmp)
        say = 'says %i' % case['seed']
        calls = []
        if prog == 'own':
            writer, suffix, words = io.write_xyz, '.foo', ['myview', '-x', 'y']

            def w(fn, o):
                calls.append(fn)
                writer(fn, o)

            def chk(o):
                if o.natoms == 5:
                    raise AssertionError('five atoms')
            view = V.ViewFactory(cmd='myview -x y', assert_cmd=chk, suffix='.foo', writer=w)
            bad = case['nat'] == 5
        else:
            n, wn, suffix, words = PRE[prog]
            view, writer = getattr(V, n), getattr(io, wn)
            bad = suffix == '.cif' and case['nstep'] > 0
        if prog == 'avogadro2':
            names = ['avogadro', 'avogadro2']
        else:
            names = [words[0]]
        kw = dict(disp=case['disp'], keepfiles=case['keep'], tmpdir=tmp, options=case['options'])
        if case['bg']:
            kw['bg'] = True
        # wait=False without keepfiles: the files are deleted while the viewer starts, as documented; what
        # happens then depends on which is first
        nowait = case['nowait'] and case['keep'] and not case['bg']
        if nowait:
            kw['wait'] = False
        doc, r = dict(disp=False, keepfiles=False, options=''), rng(case, 4)
        kw = {k: v for k, v in kw.items() if k not in doc or doc[k] != v or r.random() < .3}
        sf, lf = os.path.join(d, 'given' + suffix), os.path.join(d, 'given.log')
        if case['struct']:
            kw['structfile'] = sf
        if case['log']:
            kw['logfile'] = lf
        for x in (sf, lf):
            if case['old'] and x in kw.values():
                open(x, 'w').write('left from another call\n' * 99)
        with programs(d, names, VIEWER, SAY=say, RC=str(case['rc']), WAITGO=str(int(case['bg']))) as rec:
            fds = nfd()
            out = _io.StringIO()
            rc = case['rc'] and not case['disp'] and not case['bg'] and not nowait
            with contextlib.redirect_stdout(out):
                if bad:
                    with t.raises(AssertionError, msg='assert_cmd'):
                        view(obj, **kw)
                    t.eq((os.listdir(tmp), os.path.exists(rec + '.args')), ([], False), 'nothing started')
                    return
                if rc:
                    # the viewer fails: reported, but no files are left
                    with t.raises(Exception, msg='failing viewer'):
                        view(obj, **kw)
                else:
                    t.eq(view(obj, **kw), None, 'return value')
                    if case['bg']:
                        t.ok(not os.path.exists(rec + '.done'), 'background call waits for the viewer')
                        open(rec + '.go', 'w').close()
                        for _ in range(200):
                            if os.path.exists(rec + '.done'):
                                break
                            time.sleep(.05)
                        time.sleep(.02)
            if nowait:
                for _ in range(200):
                    if os.path.exists(rec + '.done'):
                        break
                    time.sleep(.05)
                time.sleep(.02)
            t.eq(nfd(), fds, 'open file descriptors')
            keep = case['keep'] or case['bg']
            a = open(rec + '.args').read().split()
            t.eq([os.path.basename(a[0])] + a[1:-1], words + case['options'].split(), 'command line')
            name = a[-1]
            if case['struct']:
                t.eq(name, sf, 'structure file')
            else:
                t.ok(os.path.dirname(name) == tmp and name.endswith(suffix), 'structure file in tmpdir: ' + name)
            if prog == 'own':
                t.eq(calls, [name], 'calls of the writer')
            if not case['sym']:
                t.eq(list(obj.symbols), ['H'] * case['nat'], 'dummy symbols')
            ref = os.path.join(d, 'ref')
            writer(ref, obj)
            t.eq(open(rec + '.file').read(), open(ref).read(), 'file shown')
            t.eq(os.path.exists(name), keep, 'structure file kept')
            left = sorted(os.listdir(tmp))
            want = keep * ((not case['struct']) + (not case['log']))
            t.eq(len(left), want, 'files in tmpdir: %s' % left)
            t.eq(os.path.exists(lf), bool(keep and case['log']), 'log file')
            if keep:
                log = lf if case['log'] else os.path.join(tmp, [x for x in left if x.startswith('pwtools_view_log_')][0])
                t.eq(open(log).read(), say + '\nto stderr\n', 'log file')


GOFR = dict(seed=seeds, kind=pick(['cubic', 'ortho', 'ortho', 'tetragonal']), nat=sizes(1, 6, 40), nstep=ints(0, 8), dr=pick([.05, .1, .37]), rmax=pick(['auto', 2.5]), first=ints(0, 3), last=pick([-1, -1, 4, 7]), step=ints(1, 3), pbc=ints(0, 1), slicefirst=bools,
            sel=pick([['all', 'all'], ['name O', 'name H']]), verbose=bools)


@sub(D(**GOFR), quick=40, thorough=300, budget=(30, 120))
def vmd_measure_gofr(case, t):
    """VMD gets the selected time steps, atoms and parameters; its result is returned"""
    obj = make(case)
    ns = max(case['nstep'], 1)
    t.nontrivial(case['nat'] > 1)
    first = min(case['first'], ns - 1)
    last = case['last'] if case['last'] < ns else ns - 1
    if last >= 0:
        last = max(last, first)
    r = rng(case, 1)
    data = r.uniform(0, 9, (int(r.integers(1, 20)) + 1, 3))
    cc = obj.cryst_const if case['nstep'] == 0 else obj.cryst_const[0]
    with tmpdir() as d:
        tmp = os.path.join(d, 'tmp')
        os.mkdir(tmp)
        with programs(d, ['vmd'], VMD) as rec:
            np.savetxt(rec + '.data', data)
            doc = dict(dr=.05, rmax='auto', sel=['all', 'all'], first=0, last=-1, step=1, usepbc=1, slicefirst=True, verbose=False)
            kw = dict(dr=case['dr'], rmax=case['rmax'], sel=case['sel'], first=first, last=last, step=case['step'], usepbc=case['pbc'], slicefirst=case['slicefirst'], verbose=case['verbose'], tmpdir=tmp)
            kw = {k: v for k, v in kw.items() if k not in doc or doc[k] != v or r.random() < .3}
            out = _io.StringIO()
            if np.abs(cc[3:] - 90).max() > .1:
                with t.raises(Exception, msg='cell with other angles'), contextlib.redirect_stdout(out):
                    crys.vmd_measure_gofr(obj, **kw)
                t.ok(not os.path.exists(rec + '.args'), 'VMD started')
                return
            with contextlib.redirect_stdout(out), t.unchanged(coords_frac=obj.coords_frac, cell=obj.cell):
                res = crys.vmd_measure_gofr(obj, **kw)
            t.close(res, data, 'result', rtol=1e-12)
            t.eq('vmd says hello' in out.getvalue(), case['verbose'], 'output of VMD')
            g = dict(x.split(' ', 1) for x in open(rec + '.args').read().splitlines())
            t.eq(g['type'], 'xsf', 'file type')
            t.eq([g['selstr1'], g['selstr2']], case['sel'], 'selections')
            t.eq(float(g['delta']), case['dr'], 'dr')
            t.eq(int(g['usepbc']), case['pbc'], 'usepbc')
            if case['rmax'] != 'auto':
                t.eq(float(g['rmax']), case['rmax'], 'rmax')
            else:
                t.close(float(g['rmax']), min(cc[:3]) / 2, 'rmax of an orthogonal cell', rtol=1e-6)
            for w, v in (('first', '$first'), ('last', '$last'), ('step', '$step'), ('delta', '$delta'), ('rmax', '$rmax'), ('usepbc', '$usepbc')):
                t.ok('%s %s' % (w, v) in g['call'], '%s in the call' % w)
            # steps which VMD averages (its last step is included)
            txt = open(rec + '.file').read().splitlines()
            frames, i = [], 0
            while i < len(txt):
                if txt[i].startswith('PRIMCOORD'):
                    n = int(txt[i + 1].split()[0])
                    frames.append([[float(z) for z in x.split()[1:4]] for x in txt[i + 2:i + 2 + n]])
                    i += 1 + n
                i += 1
            frames = np.array(frames)
            f, l, s = int(g['first']), int(g['last']), int(g['step'])
            l = len(frames) - 1 if l == -1 else l
            used = frames[f:l + 1:s]
            x = obj.coords[None] if case['nstep'] == 0 else obj.coords
            want = x[first:(ns if last == -1 else last + 1):case['step']]
            if t.eq(used.shape, want.shape, 'number of steps averaged'):
                t.close(used, want, 'coordinates', rtol=1e-6, atol=1e-7)
            if case['slicefirst']:
                t.eq(len(frames), len(want), 'steps written')
