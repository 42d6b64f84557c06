from mdgen import *
import copy
from pwtools import io, parse, crys

RULE = ('histories of 3-14 operations (create a parser, use it later, read with io.read_*, query single attributes, ask twice, edit a result in place, create containers, unknown units) over 2-5 runs of all codes and '
        'formats with random user units; every result is compared with the values printed in the files times the unit factors in force; class-level defaults are compared with those at import; non-trivial if at least two runs')

KINDS = {'pw_scf': lambda r: gen_pw_scf(r), 'pw_md': lambda r: gen_pw_md(r), 'pw_vcmd': lambda r: gen_pw_md(r, vcmd=True), 'cp2k_scf': lambda r: gen_cp2k_scf(r), 'cp2k_md': lambda r: gen_cp2k_md(r),
         'cp2k_dcd': lambda r: gen_cp2k_md(r, dcd=True), 'cp2k_relax': lambda r: gen_cp2k_relax(r, geo=True), 'cpmd_scf': lambda r: gen_cpmd_scf(r), 'cpmd_md': lambda r: gen_cpmd_md(r),
         'lmp': lambda r: gen_lammps(r, ortho=bool(r.integers(2))), 'lmp_dcd': lambda r: gen_lammps(r, dcd=True), 'cif': lambda r: gen_cif(r), 'pdb': lambda r: gen_pdb(r)}
UNITS = ['length', 'energy', 'stress', 'forces', 'temperature', 'velocity', 'time']
KEY = dict(cell='length', coords='length', etot='energy', ekin='energy', stress='stress', forces='forces', temperature='temperature', velocity='velocity', timestep='time')
CLASSES = [c for c in vars(parse).values() if isinstance(c, type) and issubclass(c, (parse.StructureFileParser, parse.DcdOutputFile))] + [crys.Structure, crys.Trajectory]


def cls_state():
    out = {}
    for c in CLASSES:
        for k, v in vars(c).items():
            if isinstance(v, (dict, list, set)) and not k.startswith('_'):
                out[c.__name__ + '.' + k] = copy.deepcopy(v)
    return out


STATE0 = cls_state()


def restore():
    """so that every case starts from the state after import (only matters once something is broken)"""
    for c in CLASSES:
        for k in list(vars(c)):
            q = c.__name__ + '.' + k
            if q in STATE0:
                setattr(c, k, copy.deepcopy(STATE0[q]))


def user_units(r):
    u = {}
    for k in UNITS:
        if r.random() < .3:
            u[k] = float('%.3g' % 10.0**r.uniform(-2, 2))
    return u or (None if r.random() < .5 else {})


def expected(R, u):
    u = u or {}
    out = {}
    for k, v in R.cont.items():
        if k in KEY and KEY[k] in u and R.exp.get(k) is not None:
            v = np.asarray(R.exp[k]) * u[KEY[k]]
        if k == 'cryst_const' and v is not None and 'length' in u:
            v = np.array(R.exp[k], float)
            v[..., :3] *= u['length']
        if k == 'cell' and R.exp.get(k) is not None and 'length' in u and v is not None and np.ndim(R.exp[k]) == 2 and R.traj:
            v = np.array([R.exp[k]] * R.nstep) * u['length']
        out[k] = v
    return out


DERIVED = ('ekin', 'temperature', 'velocity', 'cell', 'cryst_const', 'coords', 'coords_frac')


def check(t, R, u, s, how):
    loose = getattr(R, 'loose', [])
    for k, v in sorted(expected(R, u).items()):
        if v is None and k in DERIVED:
            continue
        cmpv(t, getattr(s, k), v, '%s: %s (units %s)' % (how, k, u), **(UT if k not in loose else dict(rtol=1e-5, atol=1e-9)))
    if R.cont.get('stress') is not None:
        t.close(s.pressure, np.trace(expected(R, u)['stress'], axis1=-2, axis2=-1) / 3, how + ': pressure', rtol=3e-6, atol=1e-9)
    if s.cell is not None:
        t.close(s.volume, np.abs(np.linalg.det(s.cell)), how + ': volume of the cell', rtol=1e-5)
        if s.coords is not None and s.coords_frac is not None:
            c = s.coords_frac @ s.cell
            t.close(c, s.coords, how + ': coords and coords_frac', rtol=1e-4, atol=1e-4 * np.abs(s.coords).max())


def plain(t, R, u, p, kind):
    """parsed data only, with units and a cell for each step"""
    s = p.get_cont(auto_calc=False)
    loose = getattr(R, 'loose', [])
    for k, v in sorted(expected(R, u).items()):
        if v is not None:
            cmpv(t, getattr(s, k), v, 'get_cont(auto_calc=False) of %s: %s' % (kind, k), **(UT if k not in loose else dict(rtol=1e-5, atol=1e-9)))
    return s


def raw(s, R):
    return {k: copy.deepcopy(getattr(s, k)) for k in sorted(set(R.cont) | {'coords', 'coords_frac', 'cell', 'volume', 'cryst_const', 'pressure'})}


OPS = ['create', 'create', 'use', 'use', 'read', 'read', 'attr', 'again', 'edit', 'cont', 'bad', 'twice', 'udict']


@sub(D(seed=seeds, runs=st.lists(pick(sorted(KINDS)), min_size=2, max_size=5), ops=st.lists(pick(OPS), min_size=3, max_size=14)), quick=60, thorough=1500, budget=(120, 700))
def histories(case, t):
    r = rng(case)
    restore()
    t.nontrivial(len(set(case['runs'])) > 1)
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        runs = []
        for i, k in enumerate(case['runs']):
            R = KINDS[k](r)
            R.dir = os.path.join(d, 'r%d' % i)
            os.mkdir(R.dir)
            R.fn = R.write(R.dir)
            R.k = k
            runs.append(R)
        held, results = [], []
        for op in case['ops'] + ['use'] * 2 + ['read']:
            R = runs[int(r.integers(len(runs)))]
            if op == 'create':
                u = user_units(r)
                u0 = copy.deepcopy(u)
                held.append((R, R.cls(R.fn, units=u, **R.kw), u0))
                t.eq(u, u0, "the user's units are not changed")
            elif op == 'udict':                        # the dict given by the user is changed later
                u = user_units(r)
                u0 = copy.deepcopy(u)
                held.append((R, R.cls(R.fn, units=u, **R.kw), u0))
                if u is not None:
                    u['length'] = 77.0
            elif op == 'use' and held:
                R, p, u = held.pop(int(r.integers(len(held))))
                s = p.get_cont()
                check(t, R, u, s, 'parser for %s created earlier' % R.k)
                results.append((R, s, raw(s, R)))
            elif op == 'again' and held:
                R, p, u = held[int(r.integers(len(held)))]
                for i in range(2):
                    s = p.get_traj() if R.traj else p.get_struct()
                    check(t, R, u, s, 'call %d of get_* for %s' % (i + 1, R.k))
                    results.append((R, s, raw(s, R)))
                s = plain(t, R, u, p, R.k)
                results.append((R, s, raw(s, R)))
            elif op == 'read':
                u = user_units(r)
                kw = dict(R.kw)
                if u is not None or r.random() < .5:
                    kw['units'] = u
                s = R.reader(R.fn, **kw)
                check(t, R, u, s, 'io.read_* of %s' % R.k)
                results.append((R, s, raw(s, R)))
            elif op == 'twice':
                u = user_units(r)
                a, b = [raw(R.reader(R.fn, units=u, **R.kw), R) for _ in range(2)]
                for k in a:
                    t.ok(same(a[k], b[k]), 'reading %s twice: %s differs' % (R.k, k))
            elif op == 'attr':                         # values of the parser itself are never converted
                p = R.cls(R.fn, units=user_units(r), **R.kw)
                for k in r.permutation(sorted(R.exp))[:3]:
                    k = str(k)
                    p.try_set_attr(k)
                    cmpv(t, getattr(p, k), R.exp[k], 'parser attribute %s of %s' % (k, R.k), **(dict(rtol=1e-5, atol=1e-9) if k in getattr(R, 'loose', []) else dict(rtol=1e-11, atol=1e-11)))
            elif op == 'edit' and results:             # the user works with a result in place
                R, s, _ = results.pop(int(r.integers(len(results))))
                for k in ('cell', 'coords', 'coords_frac', 'forces', 'stress', 'cryst_const'):
                    if isinstance(getattr(s, k), np.ndarray):
                        getattr(s, k)[...] = -99.0
                s.units['length'] = 3.0
                if s.symbols:
                    s.symbols[0] = 'Xx'
                results = [x for x in results if x[0] is not R]        # parsers share arrays with their own results
                held = [x for x in held if x[0] is not R]
            elif op == 'cont':
                u = user_units(r)
                c = np.diag(r.uniform(2, 9, 3))
                s = crys.Structure(cell=c, coords_frac=np.zeros((1, 3)), symbols=['H'], units=u, etot=2.0)
                t.close(s.cell, c * (u or {}).get('length', 1.0), 'cell of a Structure', rtol=1e-12)
                t.close(s.etot, 2.0 * (u or {}).get('energy', 1.0), 'etot of a Structure', rtol=1e-12)
            elif op == 'bad':
                try:
                    R.cls(R.fn, units={'length': 5.0, 'lenght': 2.0}, **R.kw)
                except Exception as e:
                    t.ok('unknown unit' in str(e), 'unknown unit: unexpected exception %r' % e)
                else:
                    t.ok(False, 'unknown unit accepted by %s' % R.cls.__name__)
            now = cls_state()
            for k in STATE0:
                t.eq(now.get(k), STATE0[k], 'class attribute %s after %s with %s' % (k, op, R.k))
        for R, s, v in results:
            for k in v:
                t.ok(same(getattr(s, k), v[k]), 'result of %s obtained earlier has changed: %s' % (R.k, k))


@sub(D(seed=seeds, a=pick(sorted(KINDS)), b=pick(sorted(KINDS))), quick=60, thorough=700, budget=(60, 300))
def pairs(case, t):
    """b is read in between and before, with other units: a is always the same"""
    r = rng(case)
    restore()
    t.nontrivial(case['a'] != case['b'])
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = []
        for k in 'ab':
            R = KINDS[case[k]](r)
            dd = os.path.join(d, k)
            os.mkdir(dd)
            fn.append((R, R.write(dd)))
        (A, fa), (B, fb) = fn
        ua = user_units(r)
        pa = A.cls(fa, units=ua, **A.kw)
        pa2 = A.cls(fa, units=ua, **A.kw)
        if r.random() < .5:
            plain(t, A, ua, pa, case['a'])
        check(t, A, ua, pa.get_cont(), 'before')
        B.reader(fb, units={k: float(r.uniform(2, 9)) for k in UNITS}, **B.kw)
        check(t, B, None, B.reader(fb, **B.kw), 'default units of %s' % case['b'])
        check(t, A, ua, pa2.get_cont(), 'created before')
        check(t, A, None, A.reader(fa, **A.kw), 'default units of %s' % case['a'])
        check(t, A, ua, A.reader(fa, units=ua, **A.kw), 'after')


@sub(D(seed=seeds, a=pick(['pw_md', 'pw_vcmd', 'cpmd_md', 'cpmd_md'] + sorted(KINDS))), quick=40, thorough=500, budget=(40, 200))
def parsed_only(case, t):
    """get_cont(auto_calc=False) and then with derived attributes, of one parser"""
    r = rng(case)
    restore()
    t.nontrivial()
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        A = KINDS[case['a']](r)
        fn = A.write(d)
        u = user_units(r)
        p = A.cls(fn, units=u, **A.kw)
        s = plain(t, A, u, p, case['a'])
        v = raw(s, A)
        check(t, A, u, p.get_traj() if A.traj else p.get_struct(), case['a'])
        s2 = plain(t, A, u, p, case['a'])
        t.ok(s is not s2, 'every container is a new one')
        for k in v:
            t.ok(same(getattr(s, k), v[k]), 'result of %s obtained earlier has changed: %s' % (case['a'], k))
