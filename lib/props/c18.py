from pv import *
import warnings
from scipy.integrate import simpson, trapezoid
from pwtools import num
from pwtools.mpl import Data2D

RULE = ('random smooth curves and polynomials on uniform and non-uniform grids of 4-60 points, spline orders 1-5, brackets/start values; '
        '2d scattered data for each interpolator; non-trivial if the function is not constant')


def grid(r, n, lo, wid, uniform):
    if uniform:
        return np.linspace(lo, lo + wid, n)
    s = np.cumsum(r.uniform(0.3, 1.5, n))
    return lo + wid * (s - s[0]) / (s[-1] - s[0])


GR = dict(seed=seeds, n=sizes(7, 60, 200, 600), lo=floats(-50, 50), wid=floats(0.05, 80), uniform=bools)


@sub(D(k=pick([1, 2, 3, 4, 5, None]), rand=bools, **GR), quick=250, thorough=5000)
def spline_nodes_and_exactness(case, t):
    r = rng(case)
    n, lo, wid = case['n'], case['lo'], case['wid']
    x = grid(r, n, lo, wid, case['uniform'])
    k = case['k'] or 3
    kw = {} if case['k'] is None else dict(k=case['k'])
    z = lambda q: (q - lo) / wid
    c = r.normal(size=k + 1)
    y = r.normal(size=n) if case['rand'] else np.polyval(c, z(x))
    with t.unchanged(x=x, y=y):
        sp = num.Spline(x, y, **kw)
    sc = np.abs(y).max() + 1
    t.close(sp(x), y, 'spline hits the data', atol=1e-8 * sc)
    p = r.permutation(n)
    t.close(sp(x[p]), y[p], 'any order of points', atol=1e-8 * sc)
    s = sp(float(x[2]))
    t.ok(isinstance(s, float), 'scalar in, float out: %r' % type(s))
    t.close(s, y[2], 'scalar', atol=1e-8 * sc)
    for one in (x[2:3], [float(x[2])]):
        s1 = sp(one)
        t.shape(s1, (1,), 'sequence with one point gives an array')
    t.eq(num.Spline(x[:k + 2], y[:k + 2], **kw)(x[1:2]).shape, (1,), 'one point')
    xq = r.uniform(x[0], x[-1], 6)
    if not case['rand']:
        t.close(sp(xq), np.polyval(c, z(xq)), 'polynomial of order k is reproduced', rtol=0, atol=1e-6 * np.abs(c).sum())
        for d in range(1, k):
            t.close(sp(xq, der=d), np.polyval(np.polyder(c, d), z(xq)) / wid**d, 'derivative %d' % d, rtol=0,
                    atol=1e-6 * np.abs(c).sum() * (n * 4.0)**d / wid**d)
    elif k == 1:
        t.close(sp(xq), np.interp(xq, x, y), 'k=1 is linear interpolation', atol=1e-8 * sc)
    with t.raises(AssertionError, msg='wrong order'):
        num.Spline(x[::-1], y, **kw)
    with t.raises(AssertionError, msg='smoothing spline is not accurate to eps'):
        num.Spline(x, r.normal(size=n) * 10, s=1e6, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t.close(sp.splev(xq), sp(xq), 'splev')
        num.Spline(x, y, s=0.1 * n, checkeps=False, **kw)
        # the guard has to use the largest deviation, whatever its sign
        z = r.normal(size=n) if case['rand'] else np.where(np.arange(n) == n // 2, float(r.choice([-1, 1])), 0.0)
        s = float(r.uniform(.02, .8))
        err = np.abs(num.Spline(x, z, s=s, checkeps=False, **kw)(x) - z).max()
        if err > 1e-8:
            num.Spline(x, z, s=s, eps=1.01 * err, **kw)
            with t.raises(AssertionError, msg='deviation larger than eps'):
                num.Spline(x, z, s=s, eps=0.99 * err, **kw)
    t.nontrivial()


@sub(D(which=pick(['min', 'max', 'root', 'inv', 'inv']), how=pick(['auto', 'x0', 'xab']), pos=floats(0.15, 0.85), inc=bools, xs=pick([1.0, 1.0, 1e-15, 1e-13, 1e-6, 1e4, 1e13]), **GR), quick=300, thorough=6000)
def spline_solutions(case, t):
    r = rng(case)
    # xs: times in s, lengths in m, frequencies in Hz, ...
    n, lo, wid = case['n'] + 10, case['lo'] * case['xs'], case['wid'] * case['xs']
    x = grid(r, n, lo, wid, case['uniform'])
    xm = lo + case['pos'] * wid
    z = (x - xm) / wid
    w = case['which']
    if w in ('min', 'max'):
        y = (1 if w == 'min' else -1) * (z**2 + 0.2 * z**3 - 0.05 * z**4)
    else:
        y = (1 if case['inc'] else -1) * (z + 0.5 * z**3)
    sp = num.Spline(x, y)
    d = 0.07 * wid
    kw = {} if case['how'] == 'auto' else dict(x0=xm + 0.3 * d) if case['how'] == 'x0' else dict(xab=[xm - d, xm + 0.8 * d])
    if w == 'min':
        s = sp.get_min(**kw)
    elif w == 'max':
        s = sp.get_max(**kw)
    elif w == 'root':
        s = sp.get_root(**kw)
    else:
        y0 = float(y[n // 2]) if case['how'] == 'auto' else 0.0
        if case['how'] == 'auto':
            xm = float(x[n // 2])
        s = sp.invsplev(y0, **kw)
    tol = 1e-6 * wid if w in ('root', 'inv') and case['how'] != 'auto' else 2e-3 * wid
    t.close(s, xm, 'position', rtol=0, atol=3e-3 * wid)
    if w in ('min', 'max'):
        t.ok(abs(sp(s, der=1)) < 1e-3 / wid, 'derivative vanishes')
        t.ok((sp(s) <= y.min() + 1e-9) if w == 'min' else (sp(s) >= y.max() - 1e-9), 'extreme value')
        t.ok(not sp.is_mono(), 'is_mono')
    else:
        t.close(sp(s), 0.0 if w == 'root' else y0, 'y at solution', rtol=0, atol=1e-6)
        t.ok(sp.is_mono(), 'is_mono')
        with t.raises(AssertionError, msg='y0 out of range'):
            sp.invsplev(y.max() + 1.0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if w == 'min':
            a = num.findmin(x, y)
        elif w == 'root':
            a = num.findroot(x, y)
        else:
            a = None
    if a is not None:
        t.shape(a, (2,), 'findmin/findroot')
        t.close(a[0], xm, 'findmin/findroot x', rtol=0, atol=3e-3 * wid)
        t.close(a[1], sp(float(a[0])), 'findmin/findroot y', atol=1e-9)
    t.nontrivial()
    t.label(w, case['how'])


@sub(D(der=ints(1, 3), full=bools, xnew=bools, k=pick([None, 3, 4, 5]), xnone=bools, **GR), quick=200, thorough=4000)
def deriv_spl(case, t):
    r = rng(case)
    n, lo, wid = case['n'], case['lo'], case['wid']
    x = None if case['xnone'] else grid(r, n, lo, wid, case['uniform'])
    ax = np.arange(n) if x is None else x
    z0, zw = ax[0], float(ax[-1] - ax[0])
    c = r.normal(size=4)
    y = np.polyval(c, (ax - z0) / zw)
    xn = z0 + zw * np.linspace(0.05, 0.9, 5) if case['xnew'] else None
    kw = {} if case['k'] is None else dict(k=case['k'])
    d = case['der']
    with t.unchanged(x=x, y=y, xn=xn):
        out = num.deriv_spl(y, x=x, xnew=xn, n=d, fullout=case['full'], **kw)
    xw = ax if xn is None else xn
    if case['full']:
        t.eq(len(out), 2, 'fullout')
        t.close(out[0], xw, 'x')
        out = out[1]
    t.close(out, np.polyval(np.polyder(c, d), (xw - z0) / zw) / zw**d, 'derivative', rtol=0, atol=1e-6 * np.abs(c).sum() * (4.0 * n)**d / zw**d)
    with t.raises(AssertionError, msg='n=0'):
        num.deriv_spl(y, x=x, n=0)
    t.nontrivial()


@sub(D(area=pick([1.0, 3.5, 0.2, 1e5]), scale=pick([None, True, False]), func=pick([None, 'trapz']), xs=pick([1.0, 1e13, 1e-13]), ys=pick([1.0, 1e-20, 1e10]), xend=pick(['lo', 'lo', 'end0', 'neg']), yneg=pick([None, None, 'all', 'max0']), **GR), quick=200, thorough=4000)
def norm_int(case, t):
    r = rng(case)
    x = grid(r, case['n'], case['lo'], case['wid'], case['uniform'])
    # ranges which end at zero or are negative as a whole
    x = (x - {'lo': 0.0, 'end0': x[-1], 'neg': x[-1] + 0.1 * case['wid']}[case['xend']]) * case['xs']
    y = r.uniform(0.5, 1.5, case['n']) * case['ys']
    if case['yneg']:
        # non-positive values: zero at one place, or all negative
        y = -y
        if case['yneg'] == 'max0':
            y[r.integers(1, case['n'])] = 0.0
    kw = {}
    if case['scale'] is not None:
        kw['scale'] = case['scale']
    f = simpson
    if case['func']:
        f = kw['func'] = trapezoid
    with t.unchanged(x=x, y=y):
        yn = num.norm_int(y, x, area=case['area'], **kw)
    t.close(f(yn, x=x), case['area'], 'area', rtol=1e-6, atol=0)
    t.close(yn / yn[0], y / y[0], 'shape of the curve is kept', rtol=1e-9)
    t.close(np.trapezoid(yn, x) if hasattr(np, 'trapezoid') else np.trapz(yn, x), case['area'], 'about the area by trapezoidal rule', rtol=0.35 if case['yneg'] != 'max0' else 0.7, atol=0)
    t.nontrivial()


def interp_ok(what, p, q, v, f, got):
    return np.abs(got - f(q))


@sub(D(seed=seeds, what=pick(['rbf_multi', 'rbf_inv_multi', 'rbf_gauss', 'poly', 'ct', 'linear', 'nearest', 'bispl']), n=ints(6, 9), inp=pick(['points', 'xxyy', 'dd']), wid=pick([1.0, 4.0])),
     quick=120, thorough=1500, budget=(25, 300))
def interpol2d(case, t):
    """every interpolator reproduces the data at the nodes, planes, and accepts single points"""
    r = rng(case)
    n, what = case['n'], case['what']
    ax = np.linspace(-1, 1, n) * case['wid']
    X, Y = np.meshgrid(ax, ax * 1.5 + 2.0, indexing='ij')
    p = np.array([X.ravel(), Y.ravel()]).T
    jit = case['inp'] != 'dd' and what != 'bispl'
    if jit:
        inner = (np.abs(p[:, 0]) < case['wid'] * 0.99) & (np.abs(p[:, 1] - 2) < case['wid'] * 1.49)
        p = p + inner[:, None] * r.uniform(-0.15, 0.15, p.shape) * (ax[1] - ax[0])
    a, b, c, d = r.normal(size=4)
    plane = what in ('linear', 'nearest')
    f = lambda q: a + b * q[:, 0] + c * q[:, 1] + (0 if plane else d * q[:, 0] * q[:, 1] / case['wid'] + 0.3 * q[:, 0]**2)
    v = f(p)
    kw = {}
    if what.startswith('rbf'):
        kw = dict(r=0, p='mean')
    elif what == 'poly':
        kw = dict(deg=2)
    elif what == 'bispl':
        kw = dict(s=0) if False else {}
    if case['inp'] == 'points':
        init = dict(points=p, values=v)
    elif case['inp'] == 'xxyy':
        init = dict(xx=p[:, 0], yy=p[:, 1], values=v)
    else:
        init = dict(dd=Data2D(xx=p[:, 0], yy=p[:, 1], zz=v))
    with t.unchanged(p=p, v=v), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        it = num.Interpol2D(what=what, **init, **kw)
    sc = np.abs(v).max() + 1
    tol = dict(rbf_multi=1e-4, rbf_inv_multi=1e-4, rbf_gauss=1e-3, bispl=2e-2).get(what, 1e-7) * sc
    if what == 'bispl':
        tol = max(tol, 0.3 * np.sqrt(len(v)) * 1e-1)   # smoothing spline
    t.close(it(p), v, '%s at the nodes' % what, rtol=0, atol=tol)
    q = r.uniform(-0.8, 0.8, (6, 2)) * np.array([1, 1.5]) * case['wid'] + np.array([0, 2.0])
    gq = it(q)
    t.shape(gq, (6,), 'shape')
    if what == 'nearest':
        t.close(gq, v[np.argmin(((q[:, None] - p[None])**2).sum(-1), axis=1)], 'nearest value')
    else:
        tol2 = dict(ct=0.1, rbf_multi=0.05, rbf_inv_multi=0.1, rbf_gauss=0.2, bispl=0.1).get(what, 1e-7) * sc
        if what == 'bispl':
            tol2 = max(tol2, tol)
        t.close(gq, f(q), '%s in between' % what, rtol=0, atol=tol2)
    tol1 = 1e-5 * sc if what.startswith('rbf') else 1e-9 * sc
    one = it(q[0])
    t.close(np.asarray(one).ravel(), gq[:1], 'single point', atol=tol1)
    t.close(it([list(q[1])]), gq[1:2], 'nested list', atol=tol1)
    t.nontrivial()
    t.label(what)


@sub(D(seed=seeds, what=pick(['rbf_multi', 'rbf_inv_multi', 'poly', 'bispl']), x0=bools), quick=30, thorough=300, budget=(20, 240))
def interpol2d_min(case, t):
    r = rng(case)
    xm = r.uniform(-2.5, 2.5, 2)
    ax = np.linspace(-5, 5, 12)
    X, Y = np.meshgrid(ax, ax, indexing='ij')
    v = ((X - xm[0])**2 + (Y - xm[1])**2).ravel() + 5
    kw = dict(deg=4) if case['what'] == 'poly' else {} if case['what'] == 'bispl' else dict(r=1e-10)
    it = num.Interpol2D(xx=X.ravel(), yy=Y.ravel(), values=v, what=case['what'], **kw)
    m = it.get_min(x0=xm + 0.3) if case['x0'] else it.get_min()
    t.close(m, xm, 'minimum', rtol=0, atol=2e-2)
    t.nontrivial()


@sub(D(bad=pick(['what', 'mix'])), quick=4, thorough=8)
def interpol2d_rejects(case, t):
    p = np.random.default_rng(0).uniform(size=(20, 2))
    with t.raises(Exception, msg='bad input'):
        if case['bad'] == 'what':
            num.Interpol2D(points=p, values=p[:, 0], what='nope')
        else:
            num.Interpol2D(points=p, xx=p[:, 0], yy=p[:, 1], values=p[:, 0])
    t.nontrivial()


@sub(D(seed=seeds, n=ints(12, 60), lo=floats(-20, 20), wid=floats(0.1, 30), pos=floats(0.3, 0.7), q=floats(0.1, 0.9), side=pick([0, 1]), up=bools, edge=pick(['none', 'first', 'last']), fit=pick(['spline', 'poly'])), quick=150, thorough=3000)
def two_solutions(case, t):
    """non-monotonic curves: the bracket selects the solution, values beyond
    the end points are found, a turn at either end is noticed"""
    r = rng(case)
    n, lo, wid = case['n'], case['lo'], case['wid']
    x = np.linspace(lo, lo + wid, n)
    sg = 1 if case['up'] else -1
    xm = lo + case['pos'] * wid
    f = lambda q: sg * ((q - xm) / wid)**2
    y = f(x)
    sp = num.Spline(x, y) if case['fit'] == 'spline' else num.PolyFit1D(x, y, 2)
    t.ok(not sp.is_mono(), 'parabola is not monotonic')
    ends = min(case['pos'], 1 - case['pos'])
    d = case['q'] * ends
    want = xm + (d if case['side'] else -d) * wid
    xab = [xm, x[-1]] if case['side'] else [x[0], xm]
    if case['fit'] == 'spline':
        y0 = sg * d * d
        y0 = float(min(max(y0, y.min()), y.max()))
        want_ = want
        want = xm + (1 if case['side'] else -1) * wid * math.sqrt(abs(y0))
        s = sp.invsplev(y0, xab=xab)
        t.close(sp(s), y0, 'value at the solution', rtol=0, atol=1e-9)
        t.ok(xab[0] <= s <= xab[1], 'solution in the bracket')
        t.close(s, want, 'solution', rtol=0, atol=1e-3 * wid)
        s = sp.invsplev(y0, x0=want)
        t.close(s, want, 'solution from a start value', rtol=0, atol=1e-3 * wid)
        want = want_
    g = num.Spline(x, y - sg * d * d) if case['fit'] == 'spline' else num.PolyFit1D(x, y - sg * d * d, 2)
    t.close(g.get_root(xab=xab), want, 'root in the bracket', rtol=0, atol=1e-3 * wid)
    # sinus: several extrema
    xs = np.linspace(0, 4 * np.pi, 80)
    ss = num.Spline(xs, sg * np.sin(xs))
    k = int(r.integers(0, 4))
    e = (k + 0.5) * np.pi
    ismin = (k % 2 == 1) == (sg > 0)
    m = (ss.get_min if ismin else ss.get_max)(xab=[e - 0.7, e + 0.9])
    t.close(m, e, 'extremum in the bracket', rtol=0, atol=1e-3)
    # monotonic but for one end
    ym = sg * np.arange(n, dtype=float)
    if case['edge'] == 'first':
        ym[0] = ym[1] + sg * 0.5
    elif case['edge'] == 'last':
        ym[-1] = ym[-2] - sg * 0.5
    t.eq(bool(num.Spline(x, ym, k=1).is_mono()), case['edge'] == 'none', 'is_mono with a turn at: %s' % case['edge'])
    t.nontrivial()


@sub(D(seed=seeds, what=pick(['poly', 'linear', 'ct', 'rbf_multi', 'rbf_inv_multi']), far=floats(1.05, 2.0), axis=pick([0, 1]), sgn=pick([-1, 1]), off=pick([0.0, 1e3, -1e5])), quick=60, thorough=900, budget=(20, 240))
def interpol2d_outside(case, t):
    """outside of the data: polynomials and RBFs extrapolate, the
    triangulation based ones give nan; polynomials cope with any offset"""
    r = rng(case)
    n = 7
    ax = np.linspace(-1, 1, n)
    X, Y = np.meshgrid(ax + case['off'], ax * 1.5, indexing='ij')
    p = np.array([X.ravel(), Y.ravel()]).T
    a, b, c, d = r.normal(size=4) + np.array([0, 2, 2, 0])
    f = lambda q: a + b * (q[:, 0] - case['off']) + c * q[:, 1] + d * (q[:, 0] - case['off']) * q[:, 1]
    v = f(p)
    pm = r.permutation(len(p))
    p, v = p[pm], v[pm]
    what = case['what']
    kw = dict(deg=3) if what == 'poly' else dict(r=0, p='mean') if what.startswith('rbf') else {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        it = num.Interpol2D(points=p, values=v, what=what, **kw)
    q = np.array([case['off'], 0.0]) + r.uniform(-0.5, 0.5, 2)
    q[case['axis']] = [case['off'], 0.0][case['axis']] + case['sgn'] * case['far'] * [1, 1.5][case['axis']]
    g = it(q)
    t.shape(g, (1,), 'one point')
    sc = np.abs(v).max() + 1
    if what == 'poly':
        t.close(g, f(q[None]), 'extrapolation', rtol=0, atol=1e-6 * sc * (1 + abs(case['off']) * 1e-4))
    elif what in ('linear', 'ct'):
        t.ok(np.isnan(g).all(), 'nan outside of the convex hull')
    elif case['off'] == 0.0:
        e = q.copy()
        e[case['axis']] = np.clip(e[case['axis']], p[:, case['axis']].min(), p[:, case['axis']].max())
        t.ok(np.isfinite(g).all(), 'finite')
        t.ok(abs(g[0] - it(e)[0]) > 1e-8 * sc, 'not clipped to the data range')
    inside = np.array([[case['off'] + 0.13, -0.2], [case['off'] - 0.4, 0.9]])
    if what in ('poly', 'linear', 'ct'):
        t.close(it(inside), f(inside), 'inside', rtol=0, atol=1e-6 * sc * (1 + abs(case['off']) * 1e-4) if what == 'poly' else 0.2 * sc)
    t.nontrivial()
    t.label(what)


@sub(D(seed=seeds, deep=pick([0, 1, 2, 3]), what=pick(['poly', 'rbf_multi', 'rbf_inv_multi'])), quick=25, thorough=250, budget=(20, 240))
def interpol2d_default_start(case, t):
    """the default start is the grid point with the smallest value: of four minima the deepest is found"""
    r = rng(case)
    ax = np.linspace(-1.5, 1.5, 16)
    X, Y = np.meshgrid(ax, ax, indexing='ij')
    sx, sy = [(1, 1), (1, -1), (-1, 1), (-1, -1)][case['deep']]
    v = ((X**2 - 1)**2 + (Y**2 - 1)**2 - 0.15 * sx * X - 0.15 * sy * Y).ravel()
    p = np.array([X.ravel(), Y.ravel()]).T
    if case['what'] != 'bispl':
        pm = r.permutation(len(p))
        p, v = p[pm], v[pm]
    kw = dict(deg=4) if case['what'] == 'poly' else {} if case['what'] == 'bispl' else dict(r=1e-10)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = num.Interpol2D(xx=p[:, 0], yy=p[:, 1], values=v, what=case['what'], **kw).get_min()
    x = max(z.real for z in np.roots([4, 0, -4, -0.15]) if abs(z.imag) < 1e-9)
    t.close(m, np.array([sx * x, sy * x]), 'deepest minimum', rtol=0, atol=3e-2)
    t.nontrivial()


@sub(D(seed=seeds, n=ints(8, 30), kk=ints(4, 6)), quick=60, thorough=600)
def documented_defaults(case, t):
    r = rng(case, 9)
    x = np.sort(r.uniform(0, 10, case['n'])) + np.arange(case['n']) * .1
    y = np.cos(x) + r.normal(size=case['n']) * .1 + 3
    t.nontrivial()
    t.defaults(num.deriv_spl, (y, x), n=1, fullout=False, xnew=None)
    t.defaults(num.deriv_spl, (y,), x=None, n=1, fullout=False)
    t.defaults(num.norm_int, (y, x), area=1.0, scale=True, func=simpson)
    sp = num.Spline(x, y)
    for der in (0, 1):
        t.independent('Spline', sp, x, der=der)
    # eps: how far outside [x[0], x[-1]] a point may be
    a, b = num.Spline(x, y), num.Spline(x, y, eps=1e-10, checkeps=True)
    for q in (x[0] - .9e-10, x[-1] + .9e-10, x[0] - 1.6e-10, x[-1] + 1.6e-10, x[-1] + 1e-4):
        got = []
        for s in (a, b):
            try:
                got.append(float(s(q)))
            except Exception as e:
                got.append(type(e).__name__)
        t.eq(got[0], got[1], 'Spline eps=1e-10 is the default, at %r' % (q,))
    xx, yy = np.linspace(0, 3, case['kk']), np.linspace(-1, 2, case['kk'] + 1)
    dd = Data2D(xx=np.repeat(xx, len(yy)), yy=np.tile(yy, len(xx)), zz=r.normal(size=len(xx) * len(yy)))
    i, j = num.Interpol2D(dd=dd), num.Interpol2D(dd=dd, what='rbf_inv_multi')
    pts = np.array([[.3, .4], [1.2, -.3]])
    t.independent('Interpol2D', i, pts)
    t.eq(i(pts), j(pts), "Interpol2D what='rbf_inv_multi' is the default")
