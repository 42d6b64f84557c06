from pv import *
import warnings
from pwtools import io, parse

RULE = ('pw.x output text generated from random physical data (SCF, MD/relax, vc-md; 1-12 atoms, 1-7 steps; all block units, several force blocks, optional blocks left out, noise lines between) is parsed; '
        'getters must return the printed numbers, containers the numbers in eV/Angstrom/GPa/fs computed with CODATA constants; non-trivial if there are atoms and at least one optional block')
ASSUMPTIONS = 'unit constants agree with CODATA 2018 to 3e-6; output layouts are those of QE 4.x as in test/files'

from mdgen import *


base = dict(seed=seeds, nat=sizes(1, 12, 30, 110), kind=cellkinds, use_alat=bools)


@sub(D(**base), quick=90, thorough=1500, budget=(70, 400))
def scf_output(case, t):
    r = rng(case)
    g = Gen(r, case['nat'], case['kind'])
    fl_ = dict(etot=opt(r), conv=opt(r), forces=opt(r), stress=opt(r))
    nk = opt(r)
    v, o = g.scf(nblock=int(r.choice([1, 1, 2, 5])), **fl_)
    t.nontrivial(any(fl_.values()))
    al = g.alat if case['use_alat'] else 1.0
    exp = dict(natoms=g.nat, symbols=g.symbols, alat=al, cell=g.cell * al, coords=g.coords * al, nkpoints=g.nk if nk else None, scf_converged=fl_['conv'],
               etot=v.get('etot'), nstep_scf=v.get('nstep_scf'), forces=v.get('forces'), stress=v.get('stress'))
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = os.path.join(d, 'pw.out')
        txt = g.header(nk=nk) + o
        allf = [v.get('allforces')]
        if r.random() < .4:                            # several SCF runs (MD, relax): the first is used
            for _ in range(int(r.integers(1, 4))):
                v2, o2 = g.scf(nblock=len(allf[0]) // g.nat if allf[0] is not None else 1, **fl_)
                allf.append(v2.get('allforces'))
                txt += o2
            t.label('several')
        open(fn, 'w').write(txt)
        getters(t, parse.PwSCFOutputFile(fn, use_alat=case['use_alat']), exp, r)
        p = parse.PwSCFOutputFile(fn, use_alat=case['use_alat'])
        if v.get('forces') is not None:
            if hasattr(p, 'get_forces_raw') or hasattr(p, '_get_forces_raw'):
                p.try_set_attr('_forces_raw')
                t.close(p._forces_raw, np.array(allf), '_forces_raw', rtol=0, atol=0)
        for ua in (True, False, None):
            t.close(p.get_alat(use_alat=ua), al if ua is None else g.alat if ua else 1.0, 'get_alat(use_alat=%s)' % ua, rtol=1e-12)
        # containers
        L = BOHR
        kw = {}
        if not case['use_alat']:
            L = g.alat * BOHR
            kw = dict(units=dict(length=L))
        s = io.read_pw_scf(fn, use_alat=case['use_alat'], **kw)
        C = g.cell * g.alat * BOHR
        t.close(s.cell, C, 'Structure.cell [Ang]', **UT)
        t.close(s.coords, g.coords * g.alat * BOHR, 'Structure.coords [Ang]', **UT)
        t.close(s.coords_frac, g.coords @ np.linalg.inv(g.cell), 'Structure.coords_frac', rtol=1e-9, atol=1e-9)
        t.close(s.volume, abs(np.linalg.det(C)), 'Structure.volume', rtol=1e-5)
        t.eq(s.symbols, g.symbols, 'Structure.symbols')
        for k, f in (('etot', RY), ('forces', RY / BOHR), ('stress', 0.1)):
            cmpv(t, getattr(s, k), None if v.get(k) is None else v[k] * f, 'Structure.' + k, **UT)
        cmpv(t, s.pressure, None if v.get('stress') is None else np.trace(v['stress']) / 30, 'Structure.pressure', rtol=1e-9, atol=1e-9)
        t.eq(open(fn).read(), txt, 'file unchanged')


def md_run(case, t):
    """output text of a run of several steps, and what it says"""
    r = rng(case)
    nat, nstep = case['nat'], case['nstep']
    g = Gen(r, nat, case['kind'])
    fl_ = dict(etot=opt(r, .9), conv=opt(r), forces=opt(r), stress=opt(r))
    nblock = int(r.choice([1, 1, 3]))
    t.nontrivial(any(fl_.values()))
    al = g.alat if case['use_alat'] else 1.0
    o = g.header()
    vals = []
    if case['first']:
        v, x = g.scf(nblock=nblock, **fl_)
        vals.append(v)
        o += x
    ts = None
    if case['what'] != 'relax':
        ts = float('%.2f' % r.uniform(1, 200))
        o += '\n     Molecular Dynamics Calculation\n     mass Al          =    26.98\n     Starting temperature  =%9.2f K\n\n     temperature is controlled by velocity rescaling (rescaling)\n' % r.uniform(0, 999)
        o += '\n     Time step             =%9.2f a.u.,%8.4f femto-seconds\n' % (ts, ts * TRYD)
    X, C, fac, ek, T, ec = [], [], [], [], [], []
    f1 = float('%.8f' % r.uniform(2, 20))
    for k in range(nstep):
        if case['what'] == 'md':
            o += '\n     Entering Dynamics:    iteration = %5d\n                           time      =    0.0073 pico-seconds\n\n' % (k + 1)
        if case['cellp'] != 'no':
            c = fl(make_cell(case['kind'], int(r.integers(2**31))) / 5.0, 9)
            u = case['cellp']
            if u.startswith('alat='):
                f = f1 if u == 'alat=' else float('%.8f' % r.uniform(2, 20))
                fac.append(f)
                u = '(alat=%s)' % fm(f, 12, 8)
            elif u:
                u = case['deco'] % u
            o += '\nCELL_PARAMETERS %s\n' % u + ''.join(''.join(fm(x, 14, 9) for x in row) + '\n' for row in c)
            C.append(c)
        xx = fl(r.uniform(-3, 3, (nat, 3)), 9)
        o += '\nATOMIC_POSITIONS %s\n' % (case['deco'] % case['coordsp'])
        fix = opt(r, .2)
        for i in range(nat):
            o += '%-3s%s%s\n' % (g.symbols[i], ' '.join(fm(x, 16, 9) for x in xx[i]), '   0   1   0' if fix else '')
        X.append(xx)
        o += '\n' + noise(r)
        if case['what'] == 'md':
            ek.append(float('%.8f' % r.uniform(0, 50)))
            T.append(float('%.8f' % r.uniform(0, 2000)))
            o += '     kinetic energy (Ekin) = %14.8f Ry\n     temperature           = %14.8f K \n     Ekin + Etot (const)   = %14.8f Ry\n' % (ek[-1], T[-1], -1309.01983489)
        elif case['what'] == 'vcmd':
            ek.append(float('%.8f' % r.uniform(0, 50)))
            T.append(float('%.1f' % r.uniform(0, 2000)))
            ec.append(float('%.8f' % r.uniform(-5000, 5)))
            o += '     Ekin = %14.8f Ry     T = %6.1f K       Etot = %15.8f\n' % (ek[-1], T[-1], ec[-1])
        v, x = g.scf(nblock=nblock, **fl_)
        vals.append(v)
        o += x
    X = np.array(X)
    last = vals[-nstep:]
    arr = lambda k, vv=last: np.array([v[k] for v in vv]) if k in vv[0] else None
    A2B = 1 / BOHR
    coords = dict(alat=X * al, bohr=X, angstrom=X * A2B, crystal=None)[case['coordsp']]
    exp = dict(natoms=nat, symbols=g.symbols, nkpoints=g.nk, timestep=ts, etot=arr('etot'), stress=arr('stress'), forces=arr('forces'), nstep_scf=arr('nstep_scf', vals),
               coords_frac=X if case['coordsp'] == 'crystal' else None, ekin=np.array(ek) if ek else None, temperature=np.array(T) if T else None)
    C = np.array(C)
    cp = case['cellp']
    if cp == 'no':
        cell = g.cell * al
    elif cp in ('', 'alat'):
        cell = C * al
    elif cp.startswith('alat='):
        cell = C * np.array(fac)[:, None, None] if case['use_alat'] else C
    else:
        cell = C if cp == 'bohr' else C * A2B
    cls = parse.PwVCMDOutputFile if case['what'] == 'vcmd' else parse.PwMDOutputFile
    return locals()


MDOUT = dict(cellp=pick(['no', '', 'alat', 'alat=', 'alat=*', 'bohr', 'angstrom']), coordsp=pick(['alat', 'bohr', 'angstrom', 'crystal']),
             deco=pick(['(%s)', '{%s}', '%s']), first=bools, what=pick(['md', 'md', 'relax', 'vcmd']))


@sub(D(**{**base, 'nat': ints(1, 3)}, nstep=ints(900, 2600), **MDOUT), quick=4, thorough=60, budget=(20, 200))
def long_runs(case, t):
    SUBS['md_output'].func(case, t)


@sub(D(**base, nstep=sizes(1, 7, 40, 110), **MDOUT), quick=110, thorough=1800, budget=(80, 480))
def md_output(case, t):
    G = md_run(case, t)
    o, exp, cls, r, nstep, g, al, X, C, cp, cell, coords, ec, ts, fac = (G[k] for k in 'o exp cls r nstep g al X C cp cell coords ec ts fac'.split())
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = os.path.join(d, 'pw.out')
        open(fn, 'w').write(o)
        p = cls(fn, use_alat=case['use_alat'])
        getters(t, p, exp, r)
        cmpv(t, p.cell, cell, 'cell [Bohr]', rtol=1e-9 if cp != 'angstrom' else 1e-6, atol=1e-10)
        cmpv(t, p.coords, coords, 'coords [Bohr]', rtol=1e-6 if case['coordsp'] == 'angstrom' else 1e-12, atol=1e-12)
        if case['what'] == 'vcmd':
            cmpv(t, p.econst, np.array(ec), 'econst')
        tr = (io.read_pw_vcmd if case['what'] == 'vcmd' else io.read_pw_md)(fn, use_alat=case['use_alat'])
        t.eq(tr.nstep, nstep, 'nstep of the Trajectory')
        full = cell * BOHR
        full = np.array([full] * nstep) if full.ndim == 2 else full
        t.close(tr.cell, full, 'Trajectory.cell [Ang]', **UT)
        if coords is not None:
            t.close(tr.coords, coords * BOHR, 'Trajectory.coords [Ang]', **UT)
        else:
            t.close(tr.coords_frac, X, 'Trajectory.coords_frac', rtol=1e-12)
            t.close(tr.coords, np.einsum('tij,tjk->tik', X, full), 'Trajectory.coords [Ang]', rtol=3e-6, atol=1e-6)
        t.eq(tr.symbols, g.symbols, 'Trajectory.symbols')
        for k, f in (('etot', RY), ('forces', RY / BOHR), ('stress', 0.1), ('ekin', RY), ('temperature', 1.0)):
            if exp.get(k) is not None:
                t.close(getattr(tr, k), exp[k] * f, 'Trajectory.' + k, **UT)
        cmpv(t, tr.timestep, None if ts is None else ts * TRYD, 'Trajectory.timestep [fs]', **UT)
        i = int(r.integers(nstep))
        if exp['etot'] is not None:
            t.close(tr[i].etot, exp['etot'][i] * RY, 'one step: etot', **UT)
        if exp['forces'] is not None:
            t.close(tr[i].forces, exp['forces'][i] * RY / BOHR, 'one step: forces', **UT)


@sub(D(seed=seeds, what=pick(['scf', 'md', 'vcmd']), content=pick(['empty', 'noise', 'other'])), quick=40, thorough=300)
def nothing_there(case, t):
    r = rng(case)
    t.nontrivial()
    cls = dict(scf=parse.PwSCFOutputFile, md=parse.PwMDOutputFile, vcmd=parse.PwVCMDOutputFile)[case['what']]
    txt = dict(empty='', noise=noise(r, 8), other='     Program PHONON v.4.1 starts ...\n number of atoms\n total energy = 3 Ry\n')[case['content']]
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = os.path.join(d, 'pw.out')
        open(fn, 'w').write(txt)
        p = cls(fn)
        p.parse()
        for k in p.attr_lst:
            v = getattr(p, k)
            t.ok(v is None or (k == 'scf_converged' and v is False), 'attribute %s is %s for a file without it' % (k, short(v)))
