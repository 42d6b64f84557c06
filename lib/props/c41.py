from pv import *
import json
import sys
import warnings
import scipy.constants as sc
import fakeqm
from geom import *
from pwtools import calculators, constants, crys, atomic_data
import ase
from ase.calculators.calculator import kpts2mp

RULE = ('random atoms (any cell, orientation and handedness) and parameter dictionaries; the calculators are run with stand-ins for pw.x and lmp, which read the input file that was written, '
        'evaluate a pair potential and write output in the real format, results against the pair potential of the ASE atoms; non-trivial if there are at least two atoms or several calculators')
NOTE = 'lib/fakeqm.py are the stand-ins for pw.x and lmp; conversion and Voigt order against explicit loops'

FAKE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fakeqm.py')
RUN = '%s -S -E %s' % (sys.executable, FAKE)
EVA3 = sc.e * 1e30 / 1e9
SETS = [['C', 'Cl', 'Ca'], ['H', 'He', 'Hf'], ['Al', 'N'], ['Si'], ['O', 'Os', 'N', 'Na'], ['S', 'Si', 'Sn']]


def atoms(r, kind, seed, nmax=3, pbc=True):
    sy = SETS[int(r.integers(len(SETS)))]
    n = int(r.integers(1, nmax + 1))
    cell = make_cell(kind, seed)
    cell = cell / np.abs(np.linalg.det(cell))**(1 / 3) * r.uniform(3.0, 5.0)
    f = r.uniform(-1, 2, (n, 3))
    return ase.Atoms(symbols=[str(x) for x in r.choice(sy, n)], scaled_positions=f, cell=cell, pbc=pbc)


def reference(at):
    return fakeqm.pair(np.array(at.get_cell()).tolist(), at.get_positions().tolist(), [fakeqm.charge(s) for s in at.get_chemical_symbols()])


# ---- conversion ---------------------------------------------------------------------------------
@sub(D(seed=seeds, kind=cellkinds, cseed=seeds, n=sizes(1, 8, 40, 110), pbc=st.tuples(bools, bools, bools), far=bools), quick=150, thorough=3000)
def convert(case, t):
    r = rng(case)
    n = case['n']
    t.nontrivial(n > 1)
    cell = make_cell(case['kind'], case['cseed'])
    f = r.uniform(-1, 2, (n, 3)) * (100 if case['far'] else 1)
    sy = [str(x) for x in r.choice(ase.data.chemical_symbols[1:100], n)]
    L = np.abs(cell).max()
    S = crys.Structure(coords_frac=f, cell=cell, symbols=sy)
    with t.unchanged(f=f, cell=cell, sy=sy):
        at = S.get_ase_atoms()
        at2 = crys.struct2atoms(S, pbc=case['pbc'], info={'a': 1})
    for a in (at, at2):
        t.ok(isinstance(a, ase.Atoms), 'type')
        t.eq(list(a.get_chemical_symbols()), sy, 'symbols')
        t.close(np.array(a.get_cell()), cell, 'cell', rtol=1e-14)
        t.close(a.get_positions(), f @ cell, 'positions', rtol=1e-10, atol=1e-11 * L * (1 + np.abs(f).max()))
    t.eq(at.get_pbc().tolist(), [False] * 3, 'pbc is off by default')
    t.eq(at2.get_pbc().tolist(), list(case['pbc']), 'pbc')
    t.eq(at2.info, {'a': 1}, 'other keywords')
    # back
    for a in (at, at2):
        with t.unchanged(p=a.positions):
            b = crys.atoms2struct(a)
        t.eq(list(b.symbols), sy, 'symbols')
        t.close(b.cell, cell, 'cell', rtol=1e-14)
        d = b.coords_frac - f
        cond = np.linalg.cond(cell)
        tol = 1e-13 * cond * (1 + np.abs(f).max()) + 1e-14
        for k in range(3):
            dk = d[:, k] - np.rint(d[:, k]) if a.pbc[k] else d[:, k]
            t.close(dk, np.zeros(n), 'fractional coordinates, axis %d' % k, rtol=0, atol=tol)
        t.close(b.coords, b.coords_frac @ cell, 'coords', rtol=1e-10, atol=1e-11 * L * (1 + np.abs(f).max()))
        t.close(b.volume, abs(np.linalg.det(cell)), 'volume', rtol=1e-9)
        # independent objects
        a.positions += 1.0
        a.cell[0, 0] += 1
        t.close(b.cell, cell, 'cell of the copy', rtol=1e-14)
        b.cell[0, 0] += 1
    t.close(S.cell, cell, 'cell of the original', rtol=0)
    t.close(S.coords_frac, f, 'coordinates of the original', rtol=0)
    # only Structure with all that is needed
    t.ok(crys.Structure(coords=f, cell=cell).get_ase_atoms() is None, 'no symbols, no Atoms')
    with t.raises(NotImplementedError, msg='Trajectory'):
        crys.Trajectory(coords=f[None], cell=cell, symbols=sy).get_ase_atoms()
    fa = S.get_fake_ase_atoms()
    t.close(fa.get_scaled_positions(), f, 'fake atoms: fractional', rtol=0)
    t.close(fa.get_positions(), f @ cell, 'fake atoms: positions', rtol=1e-10, atol=1e-11 * L * (1 + np.abs(f).max()))
    t.eq(fa.get_number_of_atoms(), n, 'fake atoms: number')
    t.eq([int(x) for x in fa.get_atomic_numbers()], [ase.data.atomic_numbers[s] for s in sy], 'fake atoms: numbers')
    t.close(fa.get_cell(), cell, 'fake atoms: cell', rtol=0)
    t.ok(fa.get_magnetic_moments() is None, 'fake atoms: no moments')
    tr = crys.struct2traj(S)
    t.eq((tr.is_traj, tr.nstep), (True, 1), 'struct2traj')
    t.ok(crys.struct2traj(tr) is tr, 'struct2traj of a Trajectory')


# ---- Voigt --------------------------------------------------------------------------------------
VO = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]


@sub(D(seed=seeds, n=ints(1, 6), order=pick('CF'), integer=bools), quick=150, thorough=3000)
def voigt(case, t):
    r = rng(case)
    n = case['n']
    t.nontrivial(n > 1)
    s = r.normal(size=(n, 3, 3)) * 10.0**r.integers(-3, 5)
    s = np.array((s + s.transpose(0, 2, 1)), order=case['order'])
    if case['integer']:
        s = s.astype(int)
    v = np.array([[s[k][i, j] for i, j in VO] for k in range(n)], order=case['order'])
    with t.unchanged(s=s, v=v):
        for k in range(n):
            t.close(crys.tensor2voigt(s[k]), v[k], 'tensor2voigt', rtol=0, atol=0)
            t.close(crys.voigt2tensor(v[k]), s[k], 'voigt2tensor', rtol=0, atol=0)
            t.close(calculators.stress_pwtools2ase(s[k]), -v[k] / EVA3, 'stress for ASE', rtol=3e-6)
            t.close(crys.voigt2tensor(v[k].tolist()), s[k], 'list', rtol=0, atol=0)
        t.close(crys.tensor2voigt3d(s), v, 'tensor2voigt3d', rtol=0, atol=0)
        t.close(crys.voigt2tensor3d(v), s, 'voigt2tensor3d', rtol=0, atol=0)
    for f, a in [(crys.tensor2voigt, s), (crys.tensor2voigt3d, s[0]), (crys.voigt2tensor, v[0][:5]), (crys.voigt2tensor3d, v[0])]:
        with t.raises(AssertionError, IndexError, msg='wrong shape'):
            f(a)


# ---- calculators --------------------------------------------------------------------------------
def strain(r, at):
    e = np.eye(3) + r.uniform(-.05, .05, (3, 3))
    at.set_cell(np.array(at.get_cell()) @ e, scale_atoms=True)


def results(t, at, tolE, tolF, tolS, msg):
    E, F, P = reference(at)
    sF = max(np.abs(F).max(), 1e-3)
    t.close(at.get_potential_energy(), E, msg + ': energy', rtol=1e-6, atol=tolE)
    t.close(at.get_forces(), F, msg + ': forces', rtol=1e-6, atol=tolF + 1e-6 * sF)
    sig = -np.array(P)
    t.close(at.get_stress(voigt=False), sig, msg + ': stress', rtol=1e-5, atol=tolS + 1e-5 * np.abs(sig).max())
    t.close(at.get_stress(), [sig[i, j] for i, j in VO], msg + ': Voigt stress', rtol=1e-5, atol=tolS + 1e-5 * np.abs(sig).max())


def calls(d):
    fn = os.path.join(d, 'calls.jsonl')
    return [json.loads(l) for l in open(fn)] if os.path.exists(fn) else []


def history(case, t, r, make, tol, check_call, infiles):
    """several calculators in turns: results, number of runs, backups"""
    t.nontrivial(len(case['ops']) > 1 or case['n'] > 1)
    cwd = os.getcwd()
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            os.chdir(d)
            cs = []
            for i in range(case['n']):
                at = atoms(r, case['kind'], case['cseed'] + i)
                rel = bool(r.integers(2))
                name = 'calc%d' % i
                direc = name if rel else os.path.join(d, name)
                calc, info = make(i, at, direc, d)
                at.calc = calc
                cs.append(dict(at=at, calc=calc, info=info, dir=os.path.join(d, name), runs=0, todo=True))
            for op, k in [('energy', 0)] + list(case['ops']):
                c = cs[k % len(cs)]
                at = c['at']
                if op == 'move':
                    at.set_positions(at.get_positions() + r.normal(size=(len(at), 3)) * .1)
                    c['todo'] = True
                elif op == 'strain':
                    strain(r, at)
                    c['todo'] = True
                else:
                    before = {fn: open(os.path.join(c['dir'], fn)).read() for fn in infiles(c['info']) if os.path.exists(os.path.join(c['dir'], fn))}
                    with t.unchanged(p=at.positions, cell=np.array(at.cell)):
                        results(t, at, *tol, 'calculator %d' % k)
                    if c['todo']:
                        c['runs'] += 1
                        if c['info'].get('backup'):
                            for fn, txt in before.items():
                                t.eq(open(os.path.join(c['dir'], '%s.%d' % (fn, c['runs'] - 2))).read(), txt, 'backup of ' + fn)
                        check_call(c)
                    c['todo'] = False
                    L = calls(c['dir'])
                    t.eq(len(L), c['runs'], 'number of runs: none without changes')
                    if not c['info'].get('backup'):
                        t.ok(not [f for f in os.listdir(c['dir']) if f.rsplit('.', 1)[-1].isdigit()], 'no backup files')
                    for o in cs:
                        if o is not c:
                            t.eq(len(calls(o['dir'])), o['runs'], 'other calculators are not run')
            for c in cs:
                for key, val in c['info']['given'].items():
                    t.eq(str(c['calc'].parameters[key]), str(val), 'parameters[%s]' % key)
        finally:
            os.chdir(cwd)


OPS = st.lists(st.tuples(st.sampled_from(['energy', 'energy', 'move', 'strain']), st.integers(0, 2)), max_size=5)
PW_DEF = dict(calc_name='pwscf', conv_thr=1e-10, diagonalization='david', ecutwfc=80.0, electron_maxstep=500, mixing_beta=0.3, mixing_mode='plain', kpts=5.0, backup=False)
PW_CLASS = dict(calculators.Pwscf.default_parameters)
LMP_CLASS = dict(calculators.Lammps.default_parameters)


def fl_(x):
    return float(x.lower().replace('d', 'e'))


@sub(D(seed=seeds, kind=cellkinds, cseed=ints(0, 10**6), n=ints(1, 3), ops=OPS), quick=20, thorough=250, budget=(60, 400))
def pwscf(case, t):
    r = rng(case)

    def make(i, at, direc, d):
        sy = sorted(set(at.get_chemical_symbols()))
        kw = dict(pseudo_dir='/ps/%d' % i, outdir='/sc/%d' % i, directory=direc)
        choice = dict(calc_name='nm%d' % i, conv_thr=10.0**-int(r.integers(3, 12)), diagonalization='cg', ecutwfc=float(r.integers(20, 99)), ecutrho=float(r.integers(100, 900)), electron_maxstep=int(r.integers(1, 999)),
                      mixing_beta=round(float(r.random()), 3), mixing_mode='TF', kpts=[[2, 3, 4], np.array([1, 5, 1]), (3, 3, 1), 1.7, 2][int(r.integers(5))], backup=True)
        for k, v in choice.items():
            if r.random() < .5:
                kw[k] = v
        label = 'pw'
        if r.random() < .5:
            label = kw['label'] = ['pw', 'foo', 'a.b'][int(r.integers(3))]
        kw['command'] = '%s pw %s.in %s.out' % (RUN, label, label)
        suf = 'pbe-%d.UPF' % i
        kw['pp'] = suf if r.random() < .5 else [str(x) for x in r.permutation(['%s.%s' % (s, suf) for s in sy])]
        if isinstance(kw['pp'], list) and r.random() < .3:
            kw['pp'] = tuple(kw['pp'])
        with t.unchanged(**kw):
            c = calculators.Pwscf(**kw)
        t.eq((c.prefix, os.path.abspath(c.infile), os.path.abspath(c.outfile)), (label, os.path.join(d, direc, label + '.in'), os.path.join(d, direc, label + '.out')), 'names of the files')
        return c, dict(given=kw, pp=suf, backup=kw.get('backup', False), label=label)

    def check_call(c):
        call = calls(c['dir'])[-1]
        p = dict(PW_DEF, **c['info']['given'])
        nl = {k: v for x in call['nl'].values() for k, v in x.items()}
        t.eq(os.path.realpath(call['cwd']), os.path.realpath(c['dir']), 'run in the directory')
        exp = {'control': dict(calculation="'scf'", restart_mode="'from_scratch'", prefix="'%s'" % p['calc_name'], tstress='.true.', tprnfor='.true.', pseudo_dir="'%s'" % p['pseudo_dir'], outdir="'%s'" % p['outdir'], wf_collect='.false.'),
               'system': dict(ibrav='0', nat=str(len(c['at'])), ntyp=str(len(set(c['at'].get_chemical_symbols()))), nosym='.false.', occupations="'smearing'", smearing="'mv'"),
               'electrons': dict(diagonalization="'%s'" % p['diagonalization'], mixing_mode="'%s'" % p['mixing_mode'], electron_maxstep=str(p['electron_maxstep']))}
        for g, e in exp.items():
            for k, v in e.items():
                t.eq(call['nl'][g].get(k), v, '%s/%s' % (g, k))
        for g, k, v in [('system', 'ecutwfc', p['ecutwfc']), ('system', 'ecutrho', p.get('ecutrho', 4 * p['ecutwfc'])), ('electrons', 'conv_thr', p['conv_thr']), ('electrons', 'mixing_beta', p['mixing_beta']), ('system', 'degauss', 0.005)]:
            t.close(fl_(call['nl'][g][k]), v, k, rtol=1e-12, atol=0)
        at = c['at']
        if isinstance(p['kpts'], (float, int)):
            b = np.linalg.norm(2 * np.pi * np.linalg.inv(np.array(at.get_cell())).T, axis=1) * p['kpts']
            ok = np.abs(b - np.rint(b)) > 1e-6
            t.ok((np.array(call['kpoints'][:3])[ok] == np.ceil(b)[ok]).all(), 'k-points')
        else:
            t.eq(call['kpoints'][:3], [int(x) for x in p['kpts']], 'k-points')
        t.eq(call['kpoints'][3:], [0, 0, 0], 'no shift')
        t.eq(call['symbols'], at.get_chemical_symbols(), 'symbols')
        t.eq([s[0] for s in call['species']], sorted(set(at.get_chemical_symbols())), 'species')
        for s, m, pp in call['species']:
            t.eq(pp, '%s.%s' % (s, c['info']['pp']), 'pseudopotential of ' + s)
            t.close(float(m), atomic_data.pt[s]['mass'], 'mass of ' + s, rtol=1e-5)
    history(case, t, r, make, (2e-7, 1e-6, 1e-5), check_call, lambda i: [i['label'] + '.in', i['label'] + '.out'])
    t.eq(calculators.Pwscf.default_parameters, PW_CLASS, 'defaults of the class')


@sub(D(seed=seeds, kind=cellkinds, cseed=ints(0, 10**6), n=ints(1, 3), ops=OPS), quick=20, thorough=250, budget=(60, 400))
def lammps(case, t):
    r = rng(case)

    def make(i, at, direc, d):
        sy = sorted(set(at.get_chemical_symbols()))
        label = 'lmp'
        kw = dict(directory=direc, pair_coeff='* * pot%d %s' % (i, ' '.join(sy)))
        if r.random() < .5:
            kw['pair_style'] = 'sw'
        if r.random() < .5:
            kw['backup'] = True
        if r.random() < .5:
            label = kw['label'] = ['lmp', 'foo', 'a.b'][int(r.integers(3))]
        kw['command'] = '%s lmp < %s.in > %s.out' % (RUN, label, label)
        with t.unchanged(**kw):
            c = calculators.Lammps(**kw)
        return c, dict(given=kw, label=label, backup=kw.get('backup', False))

    def check_call(c):
        call = calls(c['dir'])[-1]
        one = {x[0]: x[1:] for x in call['cmd']}
        t.eq(one['pair_style'], [c['info']['given'].get('pair_style', 'tersoff')], 'pair_style')
        t.eq(' '.join(one['pair_coeff']), c['info']['given']['pair_coeff'], 'pair_coeff')
        at = c['at']
        sy = sorted(set(at.get_chemical_symbols()))
        t.eq(call['types'], [sy.index(s) + 1 for s in at.get_chemical_symbols()], 'types')
        for k, m in call['mass'].items():
            t.close(m, atomic_data.pt[sy[int(k) - 1]]['mass'], 'mass', rtol=1e-5)
        t.eq(open(os.path.join(c['dir'], c['info']['label'] + '.struct.symbols')).read().split(), at.get_chemical_symbols(), 'symbols file')
    history(case, t, r, make, (1e-7, 1e-7, 1e-8), check_call, lambda i: [i['label'] + x for x in ('.in', '.out', '.struct', '.out.dump')] + ['log.lammps'])
    t.eq(calculators.Lammps.default_parameters, LMP_CLASS, 'defaults of the class')


@sub(D(seed=seeds), quick=60, thorough=500)
def refuse(case, t):
    r = rng(case)
    ok = dict(pp='x.UPF', pseudo_dir='/a', outdir='/b', command='true')
    t.nontrivial(True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        calculators.Pwscf(**ok)
        for k in ('pp', 'pseudo_dir', 'outdir'):
            with t.raises(AssertionError, msg=k + ' is missing'):
                calculators.Pwscf(**{a: b for a, b in ok.items() if a != k})
        for extra in (dict(foo=1), dict(ecut=30), dict(smearing=0.1), dict(xc='PBE'), dict(kpts=None)):
            with t.raises(Exception, msg=str(extra)):
                calculators.Pwscf(**dict(ok, **extra))
        with t.raises(Exception, msg='unknown key'):
            calculators.Lammps(command='true', pair='x')
        # defaults of label, directory and command
        keys = [k for k in ('label', 'directory') if r.random() < .5]
        a = {k: ok[k] for k in ok if k != 'command'}
        c = calculators.Pwscf(**dict(a, **{k: 'zz' for k in keys}))
        t.eq((c.prefix, str(c.directory)), ('zz' if 'label' in keys else 'pw', 'zz' if 'directory' in keys else '.'), 'label and directory')
        t.ok('pw.x' in str(c.command), 'default command')
        c = calculators.Lammps(**{k: 'zz' for k in keys})
        t.eq((c.prefix, str(c.directory)), ('zz' if 'label' in keys else 'lmp', 'zz' if 'directory' in keys else '.'), 'label and directory')
        t.ok('lmp' in str(c.command), 'default command')
        # a failing run is not taken for a result
        with tmpdir() as d:
            at = atoms(r, 'triclinic', case['seed'])
            for cls, kw in [(calculators.Pwscf, ok), (calculators.Lammps, {})]:
                for cmd in ('false', 'true'):
                    at.calc = cls(**dict(kw, command=cmd, directory=os.path.join(d, cls.__name__)))
                    with t.raises(Exception, msg='no output'):
                        at.get_potential_energy()
    t.eq(calculators.Pwscf.default_parameters, PW_CLASS, 'defaults of the class')
    t.eq(calculators.Lammps.default_parameters, LMP_CLASS, 'defaults of the class')
    # find_exe
    with tmpdir() as d:
        old = os.environ['PATH']
        names = ['pvx%d' % i for i in range(4)]
        have = {}
        try:
            dirs = [os.path.join(d, str(i)) for i in range(3)]
            for p in dirs:
                os.mkdir(p)
                for nme in names:
                    if r.random() < .3:
                        fn = os.path.join(p, nme)
                        if r.random() < .3:
                            open(fn + '.real', 'w').write('#!/bin/sh\n')
                            os.symlink(fn + '.real', fn)
                        else:
                            open(fn, 'w').write('#!/bin/sh\n')
                        if r.random() < .8:
                            os.chmod(fn, 0o755)
                            have.setdefault(nme, fn)
                        else:
                            os.chmod(fn, 0o644)
            os.environ['PATH'] = ':'.join(dirs)
            order = [str(x) for x in r.permutation(names)]
            exp = [have[x] for x in order if x in have]
            t.eq(calculators.find_exe(order), exp[0] if exp else None, 'first name that is found')
            t.eq(calculators.find_exe(names[0]), have.get(names[0]), 'one name')
            t.eq(calculators.find_exe([]), None, 'no names')
        finally:
            os.environ['PATH'] = old
