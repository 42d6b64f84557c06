from pv import *
from gen import *
from pwtools import crys, signal
from pwtools.crys import Trajectory

RULE = ('random data of rank 1-3, kernels of 1-25 points (odd/even, signed, wider than the data), axis, edge method and norm; '
        'trajectories with random attribute subsets; non-trivial if kernel and data have more than one point')


def extend(col, M, edge):
    """col extended by M values on both ends -> function index -> value"""
    N = len(col)
    if edge == 'c':
        return lambda i: col[min(max(i, 0), N - 1)]
    # mirror at the first and last point
    def f(i):
        if i < 0:
            i = -i
        if i > N - 1:
            i = 2 * (N - 1) - i
        return col[i]
    return f


def ref_smooth(data, k, axis, edge, norm):
    k = np.asarray(k, float)
    M = len(k)
    if norm:
        k = k / k.sum()
    d = np.moveaxis(np.asarray(data, float), axis, 0)
    out = np.empty(d.shape)
    off = M // 2 if M % 2 else M // 2 - 1
    for idx in np.ndindex(d.shape[1:]):
        f = extend(d[(slice(None),) + idx], M, edge)
        for n in range(d.shape[0]):
            out[(n,) + idx] = sum(k[j] * f(n + off - j) for j in range(M))
    return np.moveaxis(out, 0, axis)


def kernel(r, M, kind):
    if kind == 'delta':
        k = np.zeros(M)
        k[M // 2] = 1.0
    elif kind == 'signed':
        k = r.normal(size=M)
        k[M // 2] += 3 + np.abs(k).sum()
    elif kind == 'int':
        k = r.integers(1, 9, M)
    elif kind == 'asym':
        k = np.arange(1, M + 1) * 1.0
    elif kind == 'const':
        k = np.ones(M)
    else:
        k = r.uniform(0.1, 1, M)
    return k


KK = pick(['delta', 'signed', 'int', 'asym', 'const', 'random'])


@sub(D(seed=seeds, N=sizes(2, 14, 70, 300, 1100), M=sizes(1, 25, 51, 120), rest=st.lists(ints(1, 4), max_size=2), axis=ints(-3, 2), edge=pick(['m', 'c', None]), norm=pick([True, False, None]),
       kk=KK, scale=pick([1.0, 1e6, 1e-5]), intdata=bools, order=pick(['C', 'F', 'view'])), quick=300, thorough=6000)
def array_smooth(case, t):
    r = rng(case)
    N, M, edge = case['N'], case['M'], case['edge']
    nd = len(case['rest']) + 1
    axis = case['axis']
    if not -nd <= axis < nd:
        axis = axis % nd
    if edge != 'c':
        # mirrored data is there for M//2 points
        M = min(M, 2 * (N - 1) + 1)
    shape = list(case['rest'])
    shape.insert(axis % nd, N)
    data = r.integers(-40, 40, shape) if case['intdata'] else r.normal(size=shape) * case['scale'] + case['scale']
    if case['order'] == 'F':
        data = np.asfortranarray(data)
    elif case['order'] == 'view':
        data = np.concatenate((data, data), axis=-1)[..., ::-1][..., :shape[-1]]
    k1 = kernel(r, M, case['kk'])
    ksh = [1] * nd
    ksh[axis] = M
    k = k1.reshape(ksh)
    kw = {}
    if case['norm'] is not None:
        kw['norm'] = case['norm']
    if edge is not None:
        kw['edge'] = edge
    if not (axis == 0 and case['seed'] % 2):
        kw['axis'] = axis
    with t.unchanged(data=data, k=k):
        res = signal.smooth(data, k, **kw)
    t.shape(res, data.shape, 'length is kept')
    want = ref_smooth(data, k1, axis, edge or 'm', case['norm'] is not False)
    sc = np.abs(k1).sum() / (abs(k1.sum()) if case['norm'] is not False else 1.0) * max(np.abs(data).max(), 1e-300)
    t.close(res, want, 'kernel average', rtol=1e-9, atol=1e-10 * sc)
    if case['kk'] == 'delta' and M % 2:
        t.close(res, data.astype(float), 'delta kernel reproduces the data', rtol=1e-9, atol=1e-10 * sc)
    if case['norm'] is not False:
        c = signal.smooth(np.full(shape, 3.25), k, **kw)
        t.close(c, np.full(shape, 3.25), 'constants are preserved', rtol=1e-8, atol=1e-9 * np.abs(k1).sum() / abs(k1.sum()))
        if (k1 >= 0).all():
            t.ok((res <= data.max(axis=axis, keepdims=True) + 1e-9 * sc).all() and (res >= data.min(axis=axis, keepdims=True) - 1e-9 * sc).all(),
                 'smoothed data lies within the data')
    t.nontrivial(M > 1)
    t.label('wide' if M > N else 'narrow')


ATT = ['velocity', 'stress', 'forces', 'etot', 'ekin', 'pressure', 'temperature']


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 3), nstep=sizes(3, 12, 60, 150), M=sizes(1, 9, 25, 51), varcell=bools, kk=KK, method=pick([1, 2, None]), auto=bools, given=st.lists(pick(ATT), unique=True, max_size=4),
       frac=bools, icoords=bools, etotint=bools), quick=150, thorough=3000)
def traj_smooth(case, t):
    n, ns = case['n'], case['nstep']
    M = min(case['M'], 2 * (ns - 1) + 1)
    raw = raw_traj(case['seed'], case['kind'], n, ns, case['varcell'])
    r = rng(case, 3)
    given = dict(symbols=raw['symbols'], timestep=1.5, cell=raw['cell'])
    if case['frac']:
        given['coords_frac'] = raw['coords_frac']
    else:
        given['coords'] = np.round(raw['coords'] * 3).astype(int) if case['icoords'] else raw['coords']
    for a in case['given']:
        shp = dict(velocity=(ns, n, 3), forces=(ns, n, 3), stress=(ns, 3, 3)).get(a, (ns,))
        given[a] = r.normal(size=shp)
        if a == 'etot' and case['etotint']:
            given[a] = r.integers(-9, 9, ns)
    tr = Trajectory(set_all_auto=case['auto'], **given)
    k = kernel(r, M, case['kk'])
    kw = {} if case['method'] is None else dict(method=case['method'])
    with t.unchanged(tr=tr, k=k):
        out = crys.smooth(tr, k, **kw)
    t.ok(type(out) is Trajectory, 'Trajectory')
    nn = 0
    for a in tr.attr_lst:
        v = getattr(tr, a)
        o = getattr(out, a, None)
        if v is None:
            t.ok(o is None, '%s was not there' % a)
            continue
        if a in tr.attrs_nstep:
            if a == 'time':
                t.shape(o, v.shape, 'time')
                continue
            w = ref_smooth(v, k, 0, 'm', True)
            sc = np.abs(k).sum() / abs(k.sum()) * max(np.abs(v).max(), 1e-30)
            t.close(o, w, 'smoothed %s' % a, rtol=1e-9, atol=1e-9 * sc)
            nn += 1
        else:
            t.eq(o, v, 'kept %s' % a)
    t.eq(out.nstep, ns if case['auto'] else getattr(tr, 'nstep'), 'nstep')
    t.nontrivial(nn >= 2 and M > 1)


@sub(D(M=ints(0, 40), sym=pick([None, True, False]), std=floats(0.05, 50), x0=floats(-5, 5), which=pick(['welch', 'lorentz', 'cauchy', 'gauss']), seed=seeds, norm=bools), quick=300, thorough=5000)
def kernels(case, t):
    M, which, std = case['M'], case['which'], case['std']
    kw = {} if case['sym'] is None else dict(sym=case['sym'])
    if which == 'gauss':
        x = rng(case).normal(size=M) * 3 * std
        with t.unchanged(x=x):
            g = signal.gauss(x, std=std, norm=case['norm'])
        w = np.array([math.exp(-0.5 * (xi / std)**2) for xi in x])
        if case['norm']:
            w = w / (std * math.sqrt(2 * math.pi))
        t.close(g, w.reshape(M), 'gauss', rtol=1e-10, atol=0)
        if case['norm']:
            gr = np.linspace(-12 * std, 12 * std, 4001)
            t.close(np.sum(signal.gauss(gr, std=std, norm=True)) * (gr[1] - gr[0]), 1.0, 'integral of gauss(norm=True)', rtol=1e-6)
        t.nontrivial(M > 0)
        return
    f = signal.welch if which == 'welch' else getattr(signal, which)
    if which != 'welch':
        kw['std'] = std
    if which == 'welch' and M == 2 and case['sym'] in (True, None):
        t.close(f(2), np.zeros(2), 'welch(2)')
        return
    w = f(M, **kw)
    t.shape(w, (M,), 'window length')
    if M == 0:
        return
    if M == 1:
        t.close(w, np.ones(1), 'window(1)')
        return
    # periodic window of even length: symmetric window of length M+1 without the last point
    L = M + 1 if (case['sym'] is False and M % 2 == 0) else M
    c = 0.5 * (L - 1)
    if which == 'welch':
        ref = np.array([1 - ((i - c) / c)**2 for i in range(L)])
    else:
        ref = np.array([std / ((i - c)**2 + std**2) for i in range(L)])
        ref = ref / ref.max()
    t.close(w, ref[:M], 'window', rtol=1e-10, atol=1e-12)
    if case['sym'] is not False or M % 2:
        t.close(w, w[::-1], 'symmetric', rtol=1e-10, atol=1e-12)
    t.nontrivial(M > 2)


@sub(D(n=ints(-1000, 1000), add=pick([1, -1, None])), quick=100, thorough=2000)
def odd(case, t):
    n = case['n']
    m = signal.odd(n) if case['add'] is None else signal.odd(n, add=case['add'])
    t.ok(m % 2 == 1 and abs(m - n) <= 1, 'odd')
    t.eq(m, n if n % 2 else n + (case['add'] or 1), 'next odd')
    t.nontrivial()


@sub(D(seed=seeds, M=ints(2, 12), N=ints(4, 12), n=ints(1, 3), kind=cellkinds), quick=60, thorough=600)
def documented_defaults(case, t):
    r = rng(case, 9)
    k = signal.welch(2 * (case['M'] // 2) + 3)
    t.nontrivial()
    t.defaults(signal.welch, (case['M'],), sym=1)
    t.defaults(signal.lorentz, (case['M'],), std=1.0, sym=True)
    t.defaults(signal.gauss, (r.normal(size=5),), std=1.0, norm=False)
    t.defaults(signal.odd, (case['M'],), add=1)
    for sym in (True, False):
        t.independent('welch', signal.welch, case['M'], sym)
        t.independent('lorentz', signal.lorentz, case['M'], 1.7, sym)
    for norm in (True, False):
        t.independent('gauss', signal.gauss, np.arange(case['M']) * 1., 2.0, norm)
    t.defaults(signal.smooth, (r.normal(size=(len(k) + case['N'], len(k) + case['N'])), k[:, None]), axis=0, edge='m', norm=True)
    nstep = len(k) + case['N']
    tr = Trajectory(**raw_traj(case['seed'], case['kind'], case['n'], nstep))
    t.defaults(crys.smooth, (tr, k), method=1)
