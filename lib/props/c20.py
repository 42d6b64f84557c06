from pv import *
import itertools
from pwtools import num

RULE = ('random arrays of rank 1-4 (ints, floats, complex; C/F order), axes (negative, tuples), slices, tolerances; non-trivial if the '
        'array has more than one element')

SHAPE = st.lists(ints(1, 5), min_size=1, max_size=4)
SL = st.one_of(ints(-3, 3), st.tuples(st.one_of(st.none(), ints(-6, 6)), st.one_of(st.none(), ints(-6, 6)), pick([None, 1, 2, -1, -2])))


def mk_sl(s, n):
    if isinstance(s, list):
        return slice(*s)
    return s % n if s >= 0 else -1 - ((-s - 1) % n)


def arr(case, salt=0):
    r = rng(case, salt)
    a = np.round(r.normal(size=case['shape']) * 100)
    dt = case['dtype']
    a = a.astype(dt) if dt != 'c16' else a + 1j * np.round(r.normal(size=case['shape']) * 10)
    return np.asfortranarray(a) if case['F'] else a


AR = dict(seed=seeds, shape=SHAPE, dtype=pick(['f8', 'i8', 'c16', 'f4', 'i4']), F=bools)


@sub(D(axis=ints(-4, 3), sl=SL, sls=st.lists(SL, min_size=4, max_size=4), copy=bools, multi=bools, aslist=bools, bval=pick(['scalar', 'array']), **AR), quick=400, thorough=8000)
def take_put(case, t):
    a = arr(case)
    nd = a.ndim
    ax = case['axis'] if -nd <= case['axis'] < nd else case['axis'] % nd
    if case['multi']:
        sl = [mk_sl(case['sls'][i], a.shape[i]) for i in range(nd)]
        idx = tuple(sl)
        arg = sl if case['aslist'] else tuple(sl)
        if nd == 1 and not case['aslist']:
            arg = tuple(sl)
        kw = {}
    else:
        arg = mk_sl(case['sl'], a.shape[ax])
        m = [slice(None)] * nd
        m[ax] = arg
        idx = tuple(m)
        kw = dict(axis=ax)
    with t.unchanged(a=a):
        b = num.slicetake(a, arg, copy=True, **kw) if case['copy'] else num.slicetake(a, arg, **kw)
    # definition: index arithmetic per axis
    sel = [list(range(n))[i] if isinstance(i, slice) else [list(range(n))[i]] for n, i in zip(a.shape, idx)]
    want = np.array([a[c] for c in itertools.product(*sel)]).reshape([len(s) for s, i in zip(sel, idx) if isinstance(i, slice)])
    t.shape(b, want.shape, 'shape')
    t.ok((np.asarray(b) == want).all() and np.asarray(b).dtype == a.dtype, 'slicetake')
    if b.ndim and b.size:
        # documented: a view by default, copy=True makes it independent
        a2 = a.copy()
        b2 = num.slicetake(a2, arg, copy=case['copy'], **kw)
        b2[...] = 77
        if case['copy']:
            t.ok((a2 == a).all(), 'copy is independent')
        else:
            t.ok((a2[idx] == 77).all(), 'default is a view')
    # put
    c = a.copy()
    val = 55 if case['bval'] == 'scalar' else np.arange(want.size).reshape(want.shape)
    res = num.sliceput(c, val, arg, **kw)
    t.ok(res is c or (np.asarray(res) == c).all(), 'returns the modified array')
    e = a.copy()
    for j, cidx in enumerate(itertools.product(*sel)):
        e[cidx] = val if np.ndim(val) == 0 else val.reshape(-1)[j]
    t.ok((c == e).all(), 'sliceput sets exactly the selected elements')
    t.nontrivial(a.size > 1)
    t.label('multi' if case['multi'] else 'axis')


@sub(D(axis=st.one_of(st.none(), ints(-4, 3), st.lists(ints(-4, 3), min_size=1, max_size=4)), astuple=bools, keep=bools, **AR), quick=400, thorough=8000)
def sums(case, t):
    a = arr(case)
    nd = a.ndim
    ax = case['axis']
    if isinstance(ax, list):
        seen, lst = set(), []
        for x in ax:
            if -nd <= x < nd and x % nd not in seen:
                seen.add(x % nd)
                lst.append(x)
        if not lst:
            t.skip('no valid axis')
        arg = tuple(lst) if case['astuple'] else list(lst)
        axes = [x % nd for x in lst]
    elif ax is None:
        arg, axes = None, list(range(nd))
    else:
        arg = ax if -nd <= ax < nd else ax % nd
        axes = [arg % nd]
    if arg is None and case['keep']:
        with t.raises(Exception, msg='axis=None and keepdims'):
            num.sum(a, axis=None, keepdims=True)
        return
    with t.unchanged(a=a, arg=arg):
        s = num.sum(a, axis=arg, keepdims=True) if case['keep'] else num.sum(a, axis=arg)
    if case['keep']:
        axes = [x for x in range(nd) if x not in axes]
    rem = [x for x in range(nd) if x not in axes]
    want = np.zeros([a.shape[x] for x in rem], dtype=complex)
    for i in itertools.product(*[range(n) for n in a.shape]):
        want[tuple(i[x] for x in rem)] += complex(a[i])
    t.shape(s, want.shape, 'shape')
    t.close(np.asarray(s).astype(complex), want, 'sum', rtol=1e-5 if case['dtype'] == 'f4' else 1e-10, atol=1e-3 if case['dtype'] == 'f4' else 1e-8)
    t.close(np.asarray(num.sum(a)).astype(complex), complex(a.astype(complex).sum()), 'sum of all', rtol=1e-4, atol=1e-2)
    t.nontrivial(a.size > 1 and len(rem) < nd)


@sub(D(nstep=sizes(0, 6, 40, 110), axis=ints(-1, 4), **AR), quick=200, thorough=3000)
def extend(case, t):
    a = arr(case)
    ax = min(case['axis'], a.ndim)
    with t.unchanged(a=a):
        b = num.extend_array(a, case['nstep']) if ax == 0 and case['F'] else num.extend_array(a, case['nstep'], axis=ax)
    m = np.moveaxis(b, ax, 0)
    t.shape(m, (case['nstep'],) + a.shape, 'shape')
    t.ok(all((x == a).all() for x in m) and b.dtype == a.dtype, 'repeated')
    if b.flags.writeable:
        with t.unchanged(a=a):
            b[...] = 0
    with t.raises(AssertionError, msg='axis out of bound'):
        num.extend_array(a, 2, axis=a.ndim + 1)
    t.nontrivial(case['nstep'] > 1)


@sub(D(seed=seeds, n=sizes(0, 20, 70, 130), m=sizes(0, 10, 40), full=bools, eps=pick([None, 0.25, 1.5]), off=pick([0.0, 0.2, 0.3])), quick=300, thorough=5000)
def match(case, t):
    r = rng(case)
    a = r.integers(-5, 6, case['n'])
    v = r.integers(-6, 7, case['m'])
    eps = case['eps']
    if eps:
        a = a + case['off']
    with t.unchanged(a=a, v=v):
        out = num.match_mask(a, v, fullout=case['full'], eps=eps)
    want = [any((x == y) if eps is None else abs(x - y) < eps for y in v) for x in a]
    if case['full']:
        t.eq(np.asarray(out[1]).tolist(), [i for i, w in enumerate(want) if w], 'indices')
        out = out[0]
    t.eq(out.tolist(), want, 'mask')
    t.eq(out.dtype, np.dtype(bool), 'bool')
    # exact comparison means exact, and eps is absolute
    big = 10.0**r.uniform(-3, 6)
    x = np.array([1.0, 2.0, 3.0]) * big
    dl = 10.0**r.uniform(-9, -6.5) * big
    t.eq(num.match_mask(x, x[:2] + dl).tolist(), [False] * 3, 'values which are close do not match')
    t.eq(num.match_mask(x, x[:2] + dl, eps=0.5 * dl).tolist(), [False] * 3, 'difference above eps')
    t.eq(num.match_mask(x, x[:2] - dl, eps=2 * dl).tolist(), [True, True, False], 'difference below eps')
    t.nontrivial(any(want) and not all(want))


def ref_order(arr, order):
    out = [list(arr[0])]
    for ii in range(len(arr) - 1):
        row = []
        for jj in range(arr.shape[1]):
            h = [o[jj] for o in out]
            if ii == 0 or order == 0:
                ref = h[-1]
            elif ii == 1 or order == 1:
                ref = 2 * h[-1] - h[-2]
            else:
                ref = 3 * h[-1] - 3 * h[-2] + h[-3]
            row.append(arr[ii + 1][np.argmin(abs(arr[ii + 1] - ref))])
        out.append(row)
    return np.array(out)


@sub(D(seed=seeds, n=sizes(2, 40, 130, 300), nb=ints(1, 5), order=pick([0, 1, 2, None]), repeat=pick([1, 1, 2, 3, None]), kind=pick(['bands', 'random']), sc=pick([1.0, 1.0, 1e-8, 1e6])), quick=150, thorough=2000)
def order_similar(case, t):
    r = rng(case)
    n, nb = case['n'], case['nb']
    if case['kind'] == 'random':
        a = r.normal(size=(n, nb))
        smooth = None
    else:
        x = np.linspace(0, 6, max(n, 30) * 4)
        smooth = np.array([(1 + 0.3 * i) * np.sin(0.6 * x + 1.1 * i) + 2.7 * i * (case['order'] in (0, 1)) for i in range(nb)]).T
        a = smooth.copy()
        for row in a[3:]:
            r.shuffle(row)
        if nb > 1 and case['order'] in (2, None):
            # crossings need a safe distance in the first steps
            smooth = None if np.min(np.abs(np.diff(np.sort(a[:4], axis=1), axis=1))) < 0.05 else smooth
    kw = {k: case[k] for k in ('order', 'repeat') if case[k] is not None}
    a = a * case['sc']
    smooth = smooth if smooth is None else smooth * case['sc']
    with t.unchanged(a=a):
        b = num.order_similar(a, **kw)
    t.shape(b, a.shape, 'shape')
    w = a
    for _ in range(case['repeat'] or 1):
        w = ref_order(w, 2 if case['order'] is None else case['order'])
    # ties in rounding are irrelevant for generic data
    t.close(b, w, 'extrapolated nearest neighbour', rtol=1e-9, atol=1e-12 * case['sc'])
    for i in range(len(a)):
        t.ok(set(b[i]) <= set(a[i]), 'values of row %d' % i)
    if smooth is not None and case['order'] in (0, 1):
        t.close(b, smooth, 'separated bands are recovered', atol=1e-9 * case['sc'])
    with t.raises(AssertionError, msg='order'):
        num.order_similar(a, order=3)
    with t.raises(AssertionError, msg='repeat'):
        num.order_similar(a, repeat=0)
    t.nontrivial(nb > 1)


@sub(D(seed=seeds, nx=ints(1, 12), ny=ints(1, 12), ndim=ints(1, 6), dt=pick(['f8', 'f4', 'i8']), F=bools, scale=pick([1.0, 1e3, 1e-3])), quick=200, thorough=4000)
def distsq(case, t):
    r = rng(case)
    x = r.normal(size=(case['nx'], case['ndim'])) * case['scale']
    y = r.normal(size=(case['ny'], case['ndim'])) * case['scale']
    if case['dt'] == 'i8':
        x, y = np.round(x * 10).astype(int), np.round(y * 10).astype(int)
    else:
        x, y = x.astype(case['dt']), y.astype(case['dt'])
    if case['F']:
        x, y = np.asfortranarray(x), y[::-1][::-1]
    with t.unchanged(x=x, y=y):
        d = num.distsq(x, y)
    w = np.array([[sum((float(p) - float(q))**2 for p, q in zip(u, v)) for v in y] for u in x])
    t.close(d, w, 'squared distances', rtol=1e-4 if case['dt'] == 'f4' else 1e-10, atol=1e-12 * case['scale']**2)
    # far from the origin, and with the same array twice
    off = np.round(10.0**r.uniform(2, 5))
    g = r.normal(size=x.shape) + off
    for other in (g, g.copy(), g[::-1]):
        dd = num.distsq(g, other)
        t.close(dd, ((g[:, None, :] - other[None, :, :])**2).sum(-1), 'points far from the origin', rtol=1e-10, atol=1e-12)
    with t.raises(AssertionError, msg='different dimensions'):
        num.distsq(x, np.zeros((2, case['ndim'] + 1)))
    t.nontrivial(case['nx'] + case['ny'] > 2)


@sub(D(seed=seeds, ndim=ints(1, 5), n=ints(1, 30), endpoint=pick([None, True, False]), ints_=bools), quick=200, thorough=3000)
def vlinspace(case, t):
    r = rng(case)
    a, b = r.normal(size=(2, case['ndim'])) * 10
    if case['ints_']:
        a, b = np.round(a).astype(int), np.round(b).astype(int)
    kw = {} if case['endpoint'] is None else dict(endpoint=case['endpoint'])
    n = case['n']
    with t.unchanged(a=a, b=b):
        p = num.vlinspace(a, b, n, **kw)
    den = (n - 1 if n > 1 else 1) if case['endpoint'] is not False else n
    t.close(p, np.array([a + (b - a) * (i / den) for i in range(n)]), 'points', rtol=1e-9, atol=1e-10)
    t.nontrivial(n > 2)


@sub(D(seed=seeds, nx=ints(1, 8), ny=ints(1, 8), x=ints(0, 10**6), mult=ints(1, 1000), n=ints(1, 10), f=floats(-6.2, 6.2), g=floats(-3.1, 3.1), h=floats(-6.2, 6.2), deg=bools), quick=200, thorough=3000)
def small(case, t):
    r = rng(case)
    x, y = r.normal(size=case['nx']), r.normal(size=case['ny'])
    X, Y = num.meshgridt(x, y)
    for i in range(len(x)):
        for j in range(len(y)):
            t.ok(X[i, j] == x[i] and Y[i, j] == y[j], 'meshgridt')
    t.eq(int(num.round_up_next_multiple(case['x'], case['mult'])), -(-case['x'] // case['mult']) * case['mult'], 'round_up_next_multiple')
    v = r.normal(size=case['n'])
    t.close(num.norm(v), math.sqrt(math.fsum(v**2)), 'norm', rtol=1e-12, atol=0)
    w = np.abs(v) + 0.1
    with t.unchanged(w=w):
        t.close(num.normalize(w), w / max(w), 'normalize')
    s_ = np.append(v * 5, 0.5)
    s_[0] = -20.0
    with t.unchanged(s_=s_):
        t.close(num.normalize(s_), s_ / max(s_), 'normalize: maximum is 1')
    t.eq(int(num.round_up_next_multiple(-case['x'], case['mult'])), -(case['x'] // case['mult']) * case['mult'], 'round_up_next_multiple of a negative number')
    a = num.fempty((3, 2))
    t.ok(a.shape == (3, 2) and a.dtype == np.float64 and a.flags.f_contiguous, 'fempty')
    f, g, h = case['f'], case['g'], case['h']
    Rz = lambda p: np.array([[math.cos(p), math.sin(p), 0], [-math.sin(p), math.cos(p), 0], [0, 0, 1]])
    Rx = lambda p: np.array([[1, 0, 0], [0, math.cos(p), math.sin(p)], [0, -math.sin(p), math.cos(p)]])
    E = num.euler_matrix(*(np.rad2deg([f, g, h]) if case['deg'] else (f, g, h)), deg=case['deg'])
    t.close(E, Rz(h) @ Rx(g) @ Rz(f), 'euler_matrix', atol=1e-9)
    t.close(E @ E.T, np.eye(3), 'orthogonal', atol=1e-9)
    t.close(np.linalg.det(E), 1.0, 'proper rotation')
    with t.raises(AssertionError, msg='theta > pi'):
        num.euler_matrix(0, 4.0, 0)
    t.nontrivial()


@sub(D(seed=seeds, dims=st.lists(ints(1, 4), min_size=1, max_size=4), dt=pick(['f8', 'i8'])), quick=100, thorough=2000)
def datand(case, t):
    r = rng(case)
    dims = case['dims']
    axes = [np.sort(r.permutation(50)[:n]).astype(case['dt']) * (1 if case['dt'] == 'i8' else 0.37) for n in dims]
    vals = np.round(r.normal(size=dims) * 100).astype(case['dt'])
    a2 = np.array([[axes[k][i[k]] for k in range(len(dims))] + [vals[i]] for i in itertools.product(*map(range, dims))])
    with t.unchanged(a2=a2):
        nd = num.DataND(a2=a2)
    t.ok((nd.an == vals).all() and nd.an.shape == tuple(dims), 'values on the grid')
    t.eq(len(nd.axes), len(dims), 'axes')
    for p, q in zip(nd.axes, axes):
        t.ok((p == q).all(), 'axis')
    t.nontrivial(len(dims) > 1)


@sub(D(seed=seeds, ndim=ints(1, 3), n=sizes(5, 25, 60)), quick=100, thorough=1500)
def inner_points(case, t):
    r = rng(case)
    nd = case['ndim']
    p = np.sort(r.normal(size=(case['n'], 1)), axis=0) if nd == 1 else r.normal(size=(case['n'] + 5, nd))
    with t.unchanged(p=p):
        m = num.inner_points_mask(p)
    t.eq(m.dtype, np.dtype(bool), 'bool')
    if nd == 1:
        t.eq(m.tolist(), [False] + [True] * (len(p) - 2) + [False], '1d')
        with t.raises(AssertionError, msg='first and last point are not the ends'):
            num.inner_points_mask(p[r.permutation(len(p) - 1) - 1] if len(p) < 3 else np.roll(p, int(r.integers(1, len(p) - 1)), axis=0))
        q = np.concatenate([p[:2], p[1:]])
        t.eq(num.inner_points_mask(q).tolist(), [False] + [True] * (len(q) - 2) + [False], '1d with equal points')
    else:
        from scipy.spatial import ConvexHull
        h = set(ConvexHull(p).vertices.tolist())
        t.eq(m.tolist(), [i not in h for i in range(len(p))], 'points of the convex hull are removed')
    t.nontrivial(m.any())


@sub(D(seed=seeds, n=ints(2, 8), m=ints(2, 5)), quick=60, thorough=600)
def documented_defaults(case, t):
    r = rng(case, 9)
    a = r.normal(size=(case['n'], case['m']))
    t.nontrivial()
    t.defaults(num.vlinspace, (a[0], a[1], 7), endpoint=True)
    t.defaults(num.extend_array, (a, 3), axis=0)
    t.defaults(num.sum, (a,), axis=None, keepdims=False)
    t.defaults(num.slicetake, (a,), dict(sl=np.s_[1:], axis=0), copy=False)
    t.defaults(num.slicetake, (a,), dict(sl=np.s_[1:, 1]), axis=None)
    t.ok(np.shares_memory(num.slicetake(a, np.s_[1:], axis=0), a), 'slicetake copies without copy=True')
    t.defaults(num.sliceput, (a, 1.5), dict(sl=np.s_[1:, 1]), axis=None)
    t.defaults(num.order_similar, (r.normal(size=(12, case['m'])).cumsum(0),), repeat=1, order=2)
    t.defaults(num.euler_matrix, (.3, 1.1, -.4), deg=False)
    t.defaults(num.match_mask, (np.arange(6), np.array([1, 3])), fullout=False, eps=None)
    t.defaults(num.fempty, ((2, 3),), {}, lambda x: (x.shape, str(x.dtype), x.flags.f_contiguous), dtype=np.float64)
