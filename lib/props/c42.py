from pv import *
import contextlib
import io as _io
import time
import scipy.constants as sc
import ase.data
from pwtools import constants as C, atomic_data as A, mttk, decorators, timer, base, verbose, crys, num

RULE = ('every constant and element (drawn at random), random frequencies, temperatures and sizes; random dependency graphs of attributes and histories of attribute access; random histories of timer calls with several tags, '
        'times bracketed by the clock of the test; non-trivial if there are at least two attributes, instances or tags')

SI = dict(alpha='fine-structure constant', h='Planck constant', hbar='reduced Planck constant', m0='electron mass', e0='elementary charge', mu0='vacuum mag. permeability', c0='speed of light in vacuum', eps0='vacuum electric permittivity',
          a0='Bohr radius', Eh='Hartree energy', th='atomic unit of time', kb='Boltzmann constant', avo='Avogadro constant', R='molar gas constant', amu='atomic mass constant')
v = sc.value
RYJ = v('Rydberg constant times hc in J')
EXACT = dict(dyn=1e-5, Ang=1e-10, fs=1e-15, ps=1e-12, GPa=1e9, Ry_to_Ha=0.5)
DERIVED = dict(Eryd=RYJ, tryd=2 * v('atomic unit of time'), eV=sc.e, a0_to_A=v('Bohr radius') * 1e10, Ry_to_eV=v('Rydberg constant times hc in eV'), Ha_to_eV=v('Hartree energy in eV'), J_to_eV=1 / sc.e, Ry_to_J=RYJ,
               J_to_rcm=1 / (sc.h * sc.c * 100), Ry_to_rcm=v('Rydberg constant') / 100, rcm_to_Hz=sc.c * 100, Ry_to_Hz=v('Rydberg constant times c in Hz'), eV_by_Ang3_to_Pa=sc.e * 1e30, eV_by_Ang3_to_GPa=sc.e * 1e21,
               Ha=v('Hartree energy'), Ry=RYJ, Bohr=v('Bohr radius'), Bohr_to_Ang=v('Bohr radius') * 1e10, Hartree=v('Hartree energy'), Rydberg=RYJ, Angstrom=1e-10, hplanck=sc.h, thart=v('atomic unit of time'))
REL = [('hbar', lambda: C.h / 2 / math.pi), ('a0', lambda: 4 * math.pi * C.eps0 * C.hbar**2 / C.m0 / C.e0**2), ('alpha', lambda: C.e0**2 / (4 * math.pi * C.eps0 * C.hbar * C.c0)), ('Eh', lambda: C.e0**2 / (4 * math.pi * C.eps0 * C.a0)),
       ('Eh', lambda: C.alpha**2 * C.m0 * C.c0**2), ('th', lambda: C.hbar / C.Eh), ('R', lambda: C.kb * C.avo), ('amu', lambda: 1e-3 / C.avo), ('mu0', lambda: 4e-7 * math.pi), ('eps0', lambda: 1 / (C.mu0 * C.c0**2)),
       ('Eryd', lambda: C.Eh / 2), ('tryd', lambda: C.hbar / C.Eryd), ('Ry_to_eV', lambda: C.Eryd / C.eV), ('Ha_to_eV', lambda: C.Eh / C.eV), ('Ha_to_eV', lambda: 2 * C.Ry_to_eV), ('J_to_eV', lambda: 1 / C.eV), ('Ry_to_J', lambda: C.Ry), ('a0_to_A', lambda: C.a0 / C.Ang),
       ('Bohr_to_Ang', lambda: C.Bohr / C.Angstrom), ('J_to_rcm', lambda: 1 / (C.h * C.c0 * 100)), ('Ry_to_rcm', lambda: C.Ry / (C.h * C.c0 * 100)), ('rcm_to_Hz', lambda: 100 * C.c0), ('Ry_to_Hz', lambda: C.Ry / C.h), ('Ry_to_Hz', lambda: C.Ry_to_rcm * C.rcm_to_Hz),
       ('eV_by_Ang3_to_GPa', lambda: C.eV / C.Ang**3 / C.GPa), ('eV_by_Ang3_to_Pa', lambda: C.GPa * C.eV_by_Ang3_to_GPa), ('Ry', lambda: C.Ha * C.Ry_to_Ha), ('thart', lambda: C.th), ('hplanck', lambda: C.h), ('Hartree', lambda: C.Eh), ('Rydberg', lambda: C.Eryd)]


@sub(D(k=ints(0, 10**6), x=floats(1e-3, 1e3)), quick=150, thorough=600)
def constants(case, t):
    t.nontrivial(True)
    ref = {k: v(n) for k, n in SI.items()} | EXACT | DERIVED
    k = sorted(ref)[case['k'] % len(ref)]
    t.close(getattr(C, k), ref[k], k, rtol=1e-14 if k in EXACT else 4e-6, atol=0)
    n, f = REL[case['k'] % len(REL)]
    t.close(getattr(C, n), f(), 'relation of ' + n, rtol=2e-7, atol=0)
    # chains of conversions
    x = case['x']
    t.close(x * C.Ry_to_eV * C.eV * C.J_to_rcm / C.Ry_to_rcm, x, 'Ry -> eV -> J -> 1/cm -> Ry', rtol=2e-7)
    t.close(x * C.Ry_to_rcm * C.rcm_to_Hz * C.hplanck / C.Ry, x, 'Ry -> 1/cm -> Hz -> J -> Ry', rtol=2e-7)
    t.close(x / C.a0_to_A * C.Bohr / C.Ang, x, 'Ang -> Bohr -> m -> Ang', rtol=2e-7)


@sub(D(Z=ints(0, 118)), quick=119, thorough=400)
def elements(case, t):
    Z = case['Z']
    S = list(A.symbols)
    t.eq((len(S), len(A.masses), len(A.covalent_radii), len(A.pt), len(A.numbers)), (119,) * 5, 'length of the tables')
    s = S[Z]
    t.nontrivial(Z > 0)
    t.eq(A.pt[s], {'number': Z, 'mass': A.masses[Z], 'cov_rad': A.covalent_radii[Z]}, 'periodic table: ' + s)
    t.eq(A.numbers[s], Z, 'numbers')
    if Z == 0:
        t.eq(s, 'Xx', 'index zero is not an element')
        t.eq(sorted(A.pt), sorted(set(S)), 'no symbol twice')
        return
    if Z < 112:
        t.eq(s, ase.data.chemical_symbols[Z], 'symbol')
    else:
        t.eq(s, 'Uu' + {112: 'b', 113: 't', 114: 'q', 115: 'p', 116: 'h', 117: 's', 118: 'o'}[Z], 'symbol')
    m = ase.data.atomic_masses[Z]
    t.close(A.masses[Z], m, 'mass of ' + s, rtol=8e-3 if Z > 103 else 1.1e-3, atol=0)
    if Z <= 96:
        t.close(A.covalent_radii[Z], ase.data.covalent_radii[Z], 'covalent radius of ' + s, rtol=1e-10, atol=0)
    else:
        t.eq(float(A.covalent_radii[Z]), float(A.missing), 'no covalent radius')


@sub(D(f=floats(1e10, 1e15), T=floats(1, 5000), nf=ints(1, 3000), ndim=ints(1, 4), nnos=ints(1, 9), a=floats(.1, 10)), quick=150, thorough=2000)
def masses(case, t):
    f, T, nf, nd, nn, a = [case[k] for k in ('f', 'T', 'nf', 'ndim', 'nnos', 'a')]
    t.nontrivial(nn > 1)
    u = sc.k * T / f**2 / sc.m_e / v('Bohr radius')**2
    p = mttk.particle_nhc_masses(f, T, nf=nf, nnos=nn)
    t.close(p, [nf * u] + [u] * (nn - 1), 'particle chain', rtol=1e-5, atol=0)
    b = mttk.barostat_nhc_masses(f, T, ndim=nd, nnos=nn)
    t.close(b, [nd**2 * u] + [u] * (nn - 1), 'barostat chain', rtol=1e-5, atol=0)
    w = mttk.barostat_mass_w(f, T, nf=nf, ndim=nd)
    g = mttk.barostat_mass_wg(f, T, nf=nf, ndim=nd)
    t.close(w, (nf + nd) * u, 'barostat, isotropic', rtol=1e-5, atol=0)
    t.close(g * nd, w, 'barostat, full', rtol=1e-12, atol=0)
    # scaling relations, exact
    t.close(mttk.barostat_mass_w(a * f, T, nf=nf, ndim=nd), w / a**2, 'frequency', rtol=1e-12, atol=0)
    t.close(mttk.barostat_mass_wg(f, a * T, nf=nf, ndim=nd), g * a, 'temperature', rtol=1e-12, atol=0)
    t.close(mttk.particle_nhc_masses(a * f, a * T, nf=nf, nnos=nn), np.array(p) / a, 'particle chain', rtol=1e-12, atol=0)
    t.close(mttk.barostat_nhc_masses(a * f, a * T, ndim=nd, nnos=nn), np.array(b) / a, 'barostat chain', rtol=1e-12, atol=0)
    t.eq((len(mttk.particle_nhc_masses(f, T, nf=nf)), len(mttk.barostat_nhc_masses(f, T))), (4, 4), 'default length')
    t.close(mttk.barostat_nhc_masses(f, T)[0], 9 * u, 'default dimension', rtol=1e-5, atol=0)
    t.defaults(mttk.barostat_nhc_masses, (f, T), ndim=3, nnos=4)
    t.defaults(mttk.particle_nhc_masses, (f, T), dict(nf=nf), nnos=4)
    t.defaults(mttk.barostat_mass_w, (f, T), dict(nf=nf), ndim=3)
    t.defaults(mttk.barostat_mass_wg, (f, T), dict(nf=nf), ndim=3)
    # integers are fine
    t.close(mttk.barostat_mass_wg(10**12, 300, nf=7, ndim=3), mttk.barostat_mass_wg(1e12, 300.0, nf=7.0, ndim=3.0), 'integers', rtol=1e-14, atol=0)
    with t.raises(AssertionError, msg='chain without members'):
        mttk.particle_nhc_masses(f, T, nf=nf, nnos=0)
    with t.raises(AssertionError, msg='chain without members'):
        mttk.barostat_nhc_masses(f, T, nnos=0)


@sub(D(seed=seeds, n=ints(1, 5), m=ints(1, 3), ops=st.lists(st.tuples(st.sampled_from(['get', 'get', 'get', 'del', 'set', 'class', 'new']), ints(0, 4), ints(0, 4)), min_size=1, max_size=25)), quick=200, thorough=4000)
def lazyprop(case, t):
    r = rng(case)
    n = case['n']
    t.nontrivial(n > 1 and case['m'] > 1)
    vals = [[None, 0, 3.5, [], 'x'][int(r.integers(5))] for _ in range(n)]
    deps = [[int(x) for x in range(k) if r.random() < .4] for k in range(n)]
    count = {}
    ns = {}
    for k in range(n):
        def fget(self, k=k):
            count[id(self), k] = count.get((id(self), k), 0) + 1
            return (self.ident, k, vals[k], [getattr(self, 'p%d' % d) for d in deps[k]]) if vals[k] is not None else None
        fget.__name__ = 'p%d' % k
        ns['p%d' % k] = decorators.lazyprop(fget)
    cls = type('Lazy', (object,), ns)
    if r.random() < .3:
        cls = type('Derived', (cls,), {})
    objs, cache, exp = [], [], {}

    def new():
        o = cls()
        o.ident = len(objs)
        objs.append(o)
        cache.append({})

    def get(i, k):                        # model
        if k not in cache[i]:
            exp[i, k] = exp.get((i, k), 0) + 1
            d = [get(i, x) for x in deps[k]] if vals[k] is not None else None
            cache[i][k] = (i, k, vals[k], d) if vals[k] is not None else None
        return cache[i][k]
    for _ in range(case['m']):
        new()
    for op, i, k in case['ops']:
        i, k = i % len(objs), k % n
        name = 'p%d' % k
        if op == 'get':
            a, b = getattr(objs[i], name), get(i, k)
            t.eq(a, b, 'value of %s' % name)
            if vals[k] is not None:
                t.ok(getattr(objs[i], name) is a, 'same object again')
        elif op == 'set':
            setattr(objs[i], name, 'given')
            cache[i][k] = 'given'
        elif op == 'del':
            if k in cache[i]:
                delattr(objs[i], name)
                del cache[i][k]
        elif op == 'new':
            new()
        else:
            t.ok(getattr(cls, name) is None, 'access by the class')
        for (a, b), c in exp.items():
            t.eq(count.get((id(objs[a]), b), 0), c, 'number of evaluations')
        t.eq(sum(count.values()), sum(exp.values()), 'number of evaluations')


@sub(D(seed=seeds, silence=bools, ops=st.lists(st.tuples(st.sampled_from(['t', 't', 't', 'pt', 'pt', 'p']), pick([0, 0, 0, 1, 2, 3])), min_size=1, max_size=14)), quick=60, thorough=800, budget=(60, 240))
def tagtimer(case, t):
    r = rng(case)
    tags = ['outer', 'inner', 3, (1, 2)]
    t.nontrivial(len({k for _, k in case['ops']}) > 1)
    other = timer.TagTimer()
    other.t('outer')
    with contextlib.redirect_stdout(_io.StringIO()) as o:
        other.p('x')
        other.pt('outer')
    t.ok(o.getvalue().startswith('--TagTimer--: x\n--TagTimer--: outer: '), 'not silent by default: %r' % o.getvalue())
    t.ok(o.getvalue().split('outer: ')[1].strip().startswith('time:'), 'no message by default: %r' % o.getvalue())
    tt = timer.TagTimer(silence=case['silence'])
    model = {}

    def stamp(f, *a):
        lo = time.time()
        out = _io.StringIO()
        with contextlib.redirect_stdout(out):
            f(*a)
        return (lo, time.time()), out.getvalue()

    def start_stop(tag, iv):
        m = model.setdefault(tag, [])
        if len(m) == 2:
            m.clear()
        m.append(iv)
    for op, k in case['ops']:
        tag = tags[k]
        time.sleep(float(r.uniform(0, .004)))
        if op == 'p':
            iv, out = stamp(tt.p, 'hello %s' % k)
            t.eq(out, '' if case['silence'] else '--TagTimer--: hello %s\n' % k, 'message')
        elif op == 't':
            iv, out = stamp(tt.t, tag)
            t.eq(out, '', 't() prints nothing')
            start_stop(tag, iv)
        elif tag not in model:
            with t.raises(ValueError, msg='no start time'):
                tt.pt(tag)
        else:
            msg = 'msg%d' % k
            iv, out = stamp(tt.pt, tag, msg)
            if len(model[tag]) == 1:
                start_stop(tag, iv)
            a, b = model[tag]
            if case['silence']:
                t.eq(out, '', 'silence')
            else:
                head = '--TagTimer--: %s: %s time: ' % (tag, msg)
                t.ok(out.startswith(head) and out.endswith('\n'), 'format: %r' % out)
                x = float(out[len(head):])
                t.ok(b[0] - a[1] - 2e-4 <= x <= b[1] - a[0] + 2e-4, 'elapsed time of %r: %r, must be in [%r, %r]' % (tag, x, b[0] - a[1], b[1] - a[0]))
    with t.raises(ValueError, msg='timers are independent'):
        timer.TagTimer().pt('outer')
    with t.raises(ValueError, msg='timers are independent'):
        other.pt('inner')


class Dag(base.FlexibleGetters):
    """attributes a0.. _a1..; getters are made from a table"""
    def __init__(self, names, deps, val):
        self.names, self.deps, self.val = names, deps, val
        self.calls = []
        base.FlexibleGetters.__init__(self)
        self.set_attr_lst(list(names))

    def __getattr__(self, name):
        if name.startswith('__') or 'names' not in self.__dict__:
            raise AttributeError(name)
        for k, n in enumerate(self.names):
            if name == ('_get' + n if n[0] == '_' else 'get_' + n):
                return lambda: self.compute(k)
        raise AttributeError(name)

    def compute(self, k):
        self.calls.append(k)
        d = [self.names[x] for x in self.deps[k]]
        if not self.check_set_attr_lst(d):
            return None
        if self.val[k] is None:
            return None
        return self.val[k] + sum(getattr(self, x) for x in d)


@sub(D(seed=seeds, n=ints(1, 7), ops=st.lists(st.tuples(st.sampled_from(['try', 'check', 'check_lst', 'is', 'is_lst', 'assert', 'assert_set', 'get', 'all', 'some', 'set', 'init', 'pickle']), ints(0, 6), ints(0, 6)), min_size=1, max_size=12)), quick=200, thorough=4000)
def getters(case, t):
    r = rng(case)
    n = case['n']
    t.nontrivial(n > 1)
    perm = [int(x) for x in r.permutation(n)]
    names = [('_' if r.random() < .3 else '') + 'a%d' % k for k in range(n)]
    # dependencies follow a hidden order
    deps = [[perm[j] for j in range(perm.index(k)) if r.random() < .5] for k in range(n)]
    val = [None if r.random() < .2 else float(r.integers(0, 9)) for _ in range(n)]
    o = Dag(names, deps, val)
    state = [None] * n
    ncalls = [0] * n

    def want(k):
        if state[k] is None:
            ncalls[k] += 1
            for d in deps[k]:
                want(d)
            if all(state[d] is not None for d in deps[k]) and val[k] is not None:
                state[k] = val[k] + sum(state[d] for d in deps[k])
        return state[k]
    for op, i, j in case['ops']:
        i, j = i % n, j % n
        a, b = names[i], names[j]
        if op == 'try':
            o.try_set_attr(a)
            want(i)
        elif op == 'check':
            t.eq(o.check_set_attr(a), want(i) is not None, 'check_set_attr')
        elif op == 'check_lst':
            got = o.check_set_attr_lst([a, b])
            e = [want(i), want(j)]
            t.eq(got, None not in e, 'check_set_attr_lst')
        elif op == 'is':
            t.eq(o.is_set_attr(a), state[i] is not None, 'is_set_attr')
            t.eq(o.is_set_attr('nothing'), False, 'unknown attribute')
        elif op == 'is_lst':
            t.eq(o.is_set_attr_lst([a, b]), state[i] is not None and state[j] is not None, 'is_set_attr_lst')
        elif op in ('assert', 'assert_set'):
            if op == 'assert_set':
                e = [want(i)] + ([want(j)] if state[i] is not None else [])
            else:
                e = [state[i], state[j]]
            f = getattr(o, op + '_attr_lst')
            if None in e:
                with t.raises(AssertionError, msg=op):
                    f([a, b])
            else:
                f([a, b])
                getattr(o, op + '_attr')(a)
        elif op == 'get':
            t.eq(o.get_return_attr(a), want(i), 'get_return_attr')
        elif op == 'all':
            o.set_all()
            for k in range(n):
                want(k)
        elif op == 'some':
            o.set_all([a, b])
            want(i), want(j)
        elif op == 'set':
            setattr(o, a, 100.0 + i)
            state[i] = 100.0 + i
        elif op == 'init':
            o.init_attr_lst([a])
            state[i] = None
            o.init_attr_lst([])
            o.set_all([])
        elif op == 'pickle':
            with tmpdir() as d:
                from pwtools import io
                fn = os.path.join(d, 'x', 'y', 'o.pk')
                with t.raises(OSError, msg='directory does not exist'):
                    o.dump(fn, mkdir=False)
                o.dump(fn)
                p = io.read_pickle(fn)
                t.ok(type(p) is Dag and same(p.__dict__, o.__dict__), 'pickled object')
                o.calls.append(-1)
                t.ok(-1 not in p.calls, 'independent')
                o.calls.pop()
        for k in range(n):
            t.eq(getattr(o, names[k]), state[k], 'attribute %d' % k)
            t.eq(o.calls.count(k), ncalls[k], 'number of calls of getter %d' % k)


@sub(D(seed=seeds, shape=st.lists(ints(1, 4), min_size=1, max_size=3), none=bools, axis=ints(0, 2), a=ints(-5, 5), b=ints(-5, 5), one=bools), quick=150, thorough=2000)
def raw(case, t):
    r = rng(case)
    x = None if case['none'] else r.normal(size=case['shape'])
    t.nontrivial(len(case['shape']) > 1 and not case['none'])

    class Raw(base.FlexibleGetters):
        n = 0

        def _get_foo_raw(self):
            self.n += 1
            return x
    o = Raw()
    if x is None:
        t.ok(o.raw_return('foo') is None and o.raw_slice_get('foo', slice(None), 0) is None, 'nothing')
        return
    t.ok(o.raw_return('foo') is x, 'raw_return')
    ax = case['axis'] % x.ndim
    m = x.shape[ax]
    sl = (case['a'] % m) if case['one'] else slice(min(case['a'] % m, case['b'] % m), None)
    idx = [slice(None)] * x.ndim
    idx[ax] = sl
    e = np.asarray(x[tuple(idx)])
    with t.unchanged(x=x):
        g = o.raw_slice_get('foo', sl, ax)
    e = e[0] if e.shape == (1,) else e
    t.close(g, e, 'raw_slice_get', rtol=0, atol=0)
    t.eq(o.n, 1, 'getter is called once')


@sub(D(v=bools, k=ints(0, 99)), quick=10, thorough=30)
def verbosity(case, t):
    t.nontrivial(True)
    old = verbose.VERBOSE
    try:
        verbose.VERBOSE = case['v']
        out = _io.StringIO()
        with contextlib.redirect_stdout(out):
            verbose.verbose('m%d' % case['k'])
        t.eq(out.getvalue(), 'm%d\n' % case['k'] if case['v'] else '', 'verbose')
    finally:
        verbose.VERBOSE = old
