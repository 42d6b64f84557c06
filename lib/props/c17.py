from pv import *
import itertools
from numpy.polynomial import polynomial as npp, chebyshev as npc
from pwtools import num

RULE = ('random point sets (1-3 dimensions, 4-150 points, shifted and scaled axes), degrees 0-5, scale/scale_vand flags, polynomial and '
        'noisy values; non-trivial if the degree is at least 1 and values are not constant')


def powers(ndim, deg):
    return list(itertools.product(range(deg + 1), repeat=ndim))


def mk_points(r, ndim, npt, kind, lo, wid):
    if kind == 'grid' and ndim == 1:
        p = np.linspace(0, 1, npt)[:, None]
    else:
        # stratified, so the design matrix has full rank
        p = (np.array([r.permutation(npt) for _ in range(ndim)]).T + r.uniform(0.1, 0.9, (npt, ndim))) / npt
    w = wid * (10.0 ** (np.arange(ndim) * (1 if kind == 'aniso' else 0)))
    return p * w[None, :] + lo * w[None, :]


def basis(u, deg):
    """well conditioned basis of the same space, u in [-1,1]^n"""
    cols = [npc.chebvander(u[:, i], deg) for i in range(u.shape[1])]
    return np.array([np.prod([cols[i][:, p[i]] for i in range(u.shape[1])], axis=0) for p in powers(u.shape[1], deg)]).T


def norm_u(p, ref):
    lo, hi = ref.min(0), ref.max(0)
    return 2 * (p - lo) / (hi - lo) - 1


@sub(D(seed=seeds, ndim=ints(1, 3), deg=ints(0, 4), extra=ints(0, 40), kind=pick(['random', 'grid', 'aniso']), lo=pick([0.0, -0.5, 1.0, -3.0]), wid=pick([1.0, 1e-3, 200.0]), scale=pick([None, True, False]),
       sv=pick([None, True, False]), vals=pick(['poly', 'noise', 'const', 'zero', 'negative']), voff=pick([0.0, 1e3, -50.0])), quick=300, thorough=6000)
def least_squares(case, t):
    r = rng(case)
    ndim, deg = case['ndim'], min(case['deg'], {1: 4, 2: 3, 3: 2}[case['ndim']])
    nc = (deg + 1)**ndim
    npt = 3 * nc + 3 + case['extra']
    kind = case['kind']
    p = mk_points(r, ndim, npt, kind, case['lo'], case['wid'])
    kw = {k: case[k2] for k, k2 in (('scale', 'scale'), ('scale_vand', 'sv')) if case[k2] is not None}
    scaled = case['scale'] is not False
    if not scaled:
        p = mk_points(r, ndim, npt, 'random', -0.5, 2.0)
    u = norm_u(p, p)
    B = basis(u, deg)
    if np.linalg.cond(B) > 1e6:
        t.skip('ill-conditioned')
    c = r.normal(size=nc)
    v = dict(poly=lambda: B @ c, noise=lambda: r.normal(size=npt), const=lambda: np.full(npt, 2.5), zero=lambda: np.zeros(npt), negative=lambda: -np.abs(B @ c) - 1)[case['vals']]()
    off = 0.0 if case['vals'] == 'zero' else case['voff']
    v = v + off
    with t.unchanged(p=p, v=v):
        fit = num.polyfit(p, v, deg, **kw)
        pf = num.PolyFit(p, v, deg, **kw)
        y = num.polyval(fit, p)
    q, *_ = np.linalg.lstsq(B, v, rcond=None)
    sc = np.abs(v).max() + 1e-12
    tol = 1e-6 * sc
    t.close(y, B @ q, 'least squares fit', rtol=0, atol=tol)
    t.close(B.T @ (y - v), np.zeros(nc), 'residuals are orthogonal to the monomials', rtol=0, atol=tol * npt)
    # in between
    x = np.array([r.uniform(p.min(0), p.max(0)) for _ in range(5)])
    want = basis(norm_u(x, p), deg) @ q
    amp = np.abs(q).sum() + sc
    for name, yy in (('polyval', num.polyval(fit, x)), ('PolyFit', pf(x)), ('polyval der=0', num.polyval(fit, x, der=0))):
        t.close(yy, want, name, rtol=0, atol=1e-6 * amp)
    y1 = pf(x[0])
    t.ok(np.ndim(y1) == 0, 'one point gives a scalar')
    t.close(y1, want[0], 'single point', rtol=0, atol=1e-6 * amp)
    if case['vals'] in ('poly', 'const', 'zero'):
        t.close(y, v, 'polynomial data is reproduced', rtol=0, atol=tol)
    if not scaled:
        # coefficients are those of the monomials
        t.close(np.array([sum(fit['coeffs'][j] * np.prod(xi**np.array(pw)) for j, pw in enumerate(powers(ndim, deg))) for xi in x]), want,
                'coeffs belong to poly_powers', rtol=0, atol=1e-6 * amp)
    # order of points
    pm = r.permutation(npt)
    t.close(num.polyval(num.polyfit(p[pm], v[pm], deg, **kw), x), want, 'point order', rtol=0, atol=1e-6 * amp)
    with t.raises(AssertionError, msg='wrong number of values'):
        num.polyfit(p, v[:-1], deg)
    with t.raises(AssertionError, msg='wrong ndim'):
        num.polyval(fit, np.zeros((2, ndim + 1)))
    t.nontrivial(deg > 0 and case['vals'] not in ('const', 'zero'))
    t.label('ndim=%d' % ndim)


@sub(D(seed=seeds, deg=ints(0, 6), npt=sizes(10, 40, 200, 1100), lo=pick([-1.0, 0.3, 2.0, -30.0]), wid=pick([1.0, 0.01, 30.0]), scale=pick([None, True, False]), sv=bools, shape=pick(['1d', '2d', 'list', 'int'])), quick=250, thorough=5000)
def derivatives_1d(case, t):
    r = rng(case)
    deg = case['deg']
    x = case['lo'] + case['wid'] * np.linspace(0, 1, case['npt'])
    kw = {}
    if case['scale'] is not None:
        kw['scale'] = case['scale']
    if case['scale'] is False or case['shape'] == 'int':
        x = np.linspace(-1, 1.5, case['npt'])
    if case['shape'] == 'int':
        x = np.arange(-3, 9)
        kw.pop('scale', None)
    if case['sv']:
        kw['scale_vand'] = True
    mid, hw = 0.5 * (x[0] + x[-1]), 0.5 * (x[-1] - x[0])
    c = r.normal(size=deg + 1)
    f = lambda xx, d=0: npp.polyval((np.asarray(xx, float) - mid) / hw, npp.polyder(c, d) if d else c) / hw**d
    y = f(x)
    xin = dict({'1d': x, '2d': x[:, None], 'list': x.tolist(), 'int': x})[case['shape']]
    with t.unchanged(xin=xin, y=y):
        pf = num.PolyFit1D(xin, y, deg, **kw)
    x2 = np.linspace(x[0], x[-1], 7) + 0.01 * hw
    for d in range(deg + 2):
        want = f(x2, d)
        at = 1e-6 * np.abs(c).sum() * (deg + 1.0)**(2 * d) / hw**d
        t.close(pf(x2, der=d), want, 'der=%d' % d, rtol=0, atol=at)
        t.close(pf(x2[:, None], der=d), want, 'der=%d, (npoints,1)' % d, rtol=0, atol=at)
        s = pf(float(x2[3]), der=d)
        t.ok(np.ndim(s) == 0, 'scalar in, scalar out')
        t.close(s, want[3], 'scalar', rtol=0, atol=at)
    if case['shape'] != 'list':
        t.close(num.polyval(pf.fit, x2[:, None], der=1), f(x2, 1), 'polyval der=1', rtol=0, atol=1e-6 * np.abs(c).sum() * (deg + 1.0)**2 / hw)
    with t.raises(AssertionError, msg='derivatives only for 1d'):
        num.polyval(num.polyfit(r.uniform(size=(30, 2)), r.uniform(size=30), 1), np.zeros((2, 2)), der=1)
    t.nontrivial(deg > 0)


@sub(D(seed=seeds, lo=floats(-20, 20), wid=floats(0.1, 50), pos=floats(0.1, 0.9), sgn=pick([1, -1]), amp=floats(0.01, 100), off=floats(-3, 3), how=pick(['auto', 'x0', 'xab']), cubic=floats(-0.3, 0.3), npt=ints(6, 30), xs=pick([1.0, 1.0, 1e-15, 1e-13, 1e-6, 1e4, 1e13])),
     quick=200, thorough=4000)
def extrema_roots_1d(case, t):
    lo, wid, sg = case['lo'] * case['xs'], case['wid'] * case['xs'], case['sgn']
    xm = lo + case['pos'] * wid
    x = np.linspace(lo, lo + wid, case['npt'])
    z = lambda xx: (xx - xm) / wid
    y = sg * case['amp'] * (z(x)**2 + case['cubic'] * z(x)**3 + case['off'])
    pf = num.PolyFit1D(x, y, 3)
    kw = {} if case['how'] == 'auto' else dict(x0=xm + 0.02 * wid) if case['how'] == 'x0' else dict(xab=[xm - 0.08 * wid, xm + 0.09 * wid])
    m = pf.get_min(**kw) if sg > 0 else pf.get_max(**kw)
    t.close(m, xm, 'extremum', rtol=0, atol=1e-4 * wid)
    t.ok(abs(pf(m, der=1)) < 1e-3 * case['amp'] / wid, 'first derivative vanishes')
    t.ok(sg * pf(m, der=2) > 0, 'curvature')
    if x[1] < xm < x[-2]:
        t.ok(not pf.is_mono(), 'not monotonic')
    # monotonic function: root
    yr = sg * (np.sinh(2 * z(x)))
    pr = num.PolyFit1D(x, yr, 5)
    root = pr.get_root(**kw)
    t.ok(abs(pr(root)) < 1e-7, 'root')
    t.close(root, xm, 'root position', rtol=0, atol=0.02 * wid)
    t.ok(pr.is_mono(), 'monotonic')
    t.nontrivial()


@sub(D(seed=seeds, ndim=ints(1, 3), cond=pick([1, 3]), x0=pick([False, True])), quick=60, thorough=600)
def minimum_nd(case, t):
    r = rng(case)
    nd = case['ndim']
    xm = r.uniform(-1, 1, nd)
    q = r.normal(size=(nd, nd))
    A = q @ q.T + case['cond'] * np.eye(nd)
    p = r.uniform(-2, 2, (4 * 3**nd, nd))
    v = np.einsum('ij,jk,ik->i', p - xm, A, p - xm) + 7.0
    pf = num.PolyFit(p, v, 2)
    m = pf.get_min(x0=xm + 0.3) if case['x0'] else pf.get_min()
    t.shape(m, (nd,), 'minimum')
    t.close(m, xm, 'minimum position', rtol=0, atol=2e-3)
    t.ok(pf(m) <= v.min() + 1e-6, 'value at the minimum')
    t.nontrivial()


@sub(D(seed=seeds, ndim=ints(1, 4), deg=ints(0, 4), npt=ints(1, 6)), quick=150, thorough=1500)
def powers_vander(case, t):
    nd, deg = case['ndim'], min(case['deg'], 6 - case['ndim'])
    pw = powers(nd, deg)
    t.eq(num.poly_powers(nd, deg).tolist(), [list(x) for x in pw], 'poly_powers')
    p = rng(case).normal(size=(case['npt'], nd))
    with t.unchanged(p=p):
        V = num.vander(p, deg)
    t.close(V, np.array([[np.prod([x[i]**k[i] for i in range(nd)]) for k in pw] for x in p]), 'vander', rtol=1e-10)
    # the string evaluates to the same polynomial
    a = rng(case, 1).normal(size=len(pw))
    s = num.poly_str(nd, deg).replace('^', '**')
    env = {'a%i' % i: a[i] for i in range(len(pw))}
    env.update({'x%i' % i: p[0, i] for i in range(nd)})
    t.close(eval(s, {}, env), V[0] @ a, 'poly_str', rtol=1e-9)
    t.eq(s.count('+') + 1, len(pw), 'number of terms')
    t.nontrivial(deg > 0)


@sub(D(seed=seeds, ndim=ints(1, 2), deg=ints(4, 13), sx=pick([1.0, 1e-12, 1e9, 1e-6]), sy=pick([1.0, 1e-15, 1e12, 1e-7]), lo=pick([0.0, -0.5, 2.0]), sv=pick([None, True])), quick=120, thorough=2500)
def accuracy(case, t):
    """scaled fits of high degree and of data on extreme scales keep their digits"""
    r = rng(case)
    nd = case['ndim']
    deg = case['deg'] if nd == 1 else min(case['deg'], 5)
    nc = (deg + 1)**nd
    npt = 3 * nc + 20
    s = case['sx'] * (10.0 ** (3 * np.arange(nd)))
    p = (mk_points(r, nd, npt, 'random', 0.0, 1.0) + case['lo']) * s
    u = norm_u(p, p)
    c = r.normal(size=nc)
    B = basis(u, deg)
    if np.linalg.cond(B) > 1e5:
        t.skip('ill-conditioned')
    v = (B @ c) * case['sy']
    kw = {} if case['sv'] is None else dict(scale_vand=True)
    with t.unchanged(p=p, v=v):
        fit = num.polyfit(p, v, deg, **kw)
    cond = np.linalg.cond(num.vander((p - p.min(0)) / (p.max(0) - p.min(0)), deg))
    sc = np.abs(c).sum()
    tol = (1e-12 + 1e-15 * cond) * sc * 20
    t.ok(tol < 1e-2 * np.abs(v / case['sy']).max(), 'harness: tolerance')
    t.close(num.polyval(fit, p) / case['sy'], v / case['sy'], 'polynomial of degree %d is reproduced' % deg, rtol=0, atol=tol)
    # permuted points: the first one is no corner of the box
    pm = np.argsort(np.abs(u).sum(1))
    t.close(num.polyval(num.polyfit(p[pm], v[pm], deg, **kw), p) / case['sy'], v / case['sy'], 'points in another order', rtol=0, atol=tol)
    one = num.PolyFit(p, v, deg, **kw)(p[:1])
    t.shape(one, (1,), 'array with one point gives an array')
    t.close(one / case['sy'], v[:1] / case['sy'], 'one point', rtol=0, atol=tol)
    t.nontrivial()
    t.label('deg=%d' % deg)


@sub(D(seed=seeds, ndim=ints(1, 2), deep=bools, w=floats(0.05, 0.2)), quick=40, thorough=600)
def default_start(case, t):
    """without x0 the minimizer starts from the smallest data value: of two
    minima the deeper one is found"""
    r = rng(case)
    nd = case['ndim']
    sg = 1 if case['deep'] else -1
    n = 21 if nd == 1 else 13
    ax = np.linspace(-1.5, 1.5, n)
    g = np.array(np.meshgrid(*[ax] * nd, indexing='ij')).reshape(nd, -1).T
    f = lambda q: (q[:, 0]**2 - 1)**2 + sg * case['w'] * q[:, 0] + sum(2 * (q[:, i] - 0.3)**2 for i in range(1, nd))
    p = g[r.permutation(len(g))]
    pf = num.PolyFit(p, f(p), 4)
    m = np.atleast_1d(pf.get_min())
    x = np.roots([4, 0, -4, sg * case['w']])
    x = min((float(z.real) for z in x if abs(z.imag) < 1e-9), key=lambda z: (z * z - 1)**2 + sg * case['w'] * z)
    t.close(m, np.array([x] + [0.3] * (nd - 1)), 'deeper minimum', rtol=0, atol=3e-3)
    t.nontrivial()


@sub(D(seed=seeds, ndim=ints(1, 2), deg=ints(1, 4)), quick=60, thorough=600)
def documented_defaults(case, t):
    r = rng(case, 9)
    p = r.uniform(2, 5, (40, case['ndim']))
    v = np.cos(p.sum(1)) * 3 + r.normal(size=40) * .1
    t.nontrivial()
    t.defaults(num.polyfit, (p, v, case['deg']), scale=True, scale_vand=False)
    fit = num.polyfit(p, v, case['deg'])
    t.defaults(num.polyval, (fit, p), der=0)
    a, b = num.PolyFit(p, v, case['deg']), num.PolyFit(p, v, case['deg'], scale=True, scale_vand=False)
    t.eq(a(p), b(p), 'PolyFit scale=True, scale_vand=False are the defaults')
    for q in (p, p[0]):
        t.independent('PolyFit', a, q)
        t.independent('PolyFit derivative', a, q, der=1) if case['ndim'] == 1 else None
    if case['seed'] % 16 == 0:
        t.independent('PolyFit minimum', a.get_min)
    t.independent('poly_powers', num.poly_powers, case['ndim'], case['deg'])
    t.independent('vander', num.vander, p, case['deg'])
    if case['ndim'] == 1:
        t.independent('PolyFit1D', num.PolyFit1D(p, v, case['deg']), p[:, 0])
