from pv import *
import warnings
from pwtools import rbf
from pwtools.rbf import core, hyperopt
warnings.filterwarnings('ignore')

RULE = ('random training sets (3-25 points, 1-4 dimensions), all kernels and callables, p given or estimated, r = 0, >0 and None, zero and '
        'constant targets, optimiser settings; non-trivial if the model is not identically zero')

KERN = dict(gauss=lambda s, p: np.exp(-s / (2 * p * p)), multi=lambda s, p: np.sqrt(s + p * p), inv_multi=lambda s, p: 1 / np.sqrt(s + p * p))


def dist2(a, b):
    return np.array([[sum((x - y)**2 for x, y in zip(u, v)) for v in b] for u in a])


def points(r, n, nd, wid, intp=False):
    # jittered stratified points -> well separated
    p = (np.array([r.permutation(n) for _ in range(nd)]).T + (0 if intp else r.uniform(0.3, 0.7, (n, nd))))
    return p if intp else p / n * wid


MODEL = dict(seed=seeds, n=ints(3, 25), nd=ints(1, 4), wid=pick([1.0, 10.0, 0.05, 1e-9]), kern=pick(['gauss', 'multi', 'inv_multi', 'callable', None]), r=pick([0, 1e-6, 0.1, None]), p=pick(['fac', 'mean', 'scipy', None]),
             fac=floats(0.3, 1.5), val=pick(['random', 'smooth', 'zero', 'const', 'int', 'big']), intp=bools, flat=pick([False, False, True]))


def build(case, t=None, **over):
    r = rng(case)
    n, nd, wid = case['n'], case['nd'], case['wid']
    P = points(r, n, nd, wid, case['intp'])
    if case.get('flat') and nd < 4:
        # one coordinate is the same for all points
        P = np.insert(P, int(r.integers(nd + 1)), 3 if case['intp'] else 3 * wid, axis=1)
        nd += 1
    v = dict(random=lambda: r.normal(size=n), smooth=lambda: np.sin(P.astype(float).sum(1) / wid), zero=lambda: np.zeros(n), const=lambda: np.full(n, -2.5),
             int=lambda: r.integers(-9, 9, n), big=lambda: 1e8 + 1e6 * r.normal(size=n))[case['val']]()
    D2 = dist2(P.astype(float), P.astype(float))
    nn = np.sqrt((D2 + np.diag([np.inf] * n)).min(1)).mean()
    kw = {}
    if case['kern'] is not None:
        kw['rbf'] = core.rbf_multi if case['kern'] == 'callable' else case['kern']
    if case['p'] is not None:
        kw['p'] = nn * case['fac'] if case['p'] == 'fac' else case['p']
    if not (case['r'] == 0 and case['seed'] % 2):
        kw['r'] = case['r']
    return P, v, D2, kw


@sub(D(**MODEL), quick=400, thorough=8000)
def system_and_prediction(case, t):
    P, v, D2, kw = build(case)
    n = len(P)
    with t.unchanged(P=P, v=v):
        f = rbf.Rbf(P, v, **kw)
        f(P)
    k = KERN['multi' if case['kern'] == 'callable' else case['kern'] or 'gauss']
    if case['p'] == 'fac':
        t.eq(f.p, kw['p'], 'p')
    elif case['p'] == 'scipy':
        edges = P.max(0) - P.min(0)
        edges = edges[edges != 0]
        t.close(f.p, (np.prod(edges) / n)**(1.0 / len(edges)), 'p=scipy', rtol=1e-9)
        t.close(core.estimate_p(P, 'scipy'), f.p, 'estimate_p')
    else:
        t.close(f.p, np.sqrt(D2).mean(), 'p=mean', rtol=1e-9)
        t.close(core.estimate_p(P), f.p, 'estimate_p', rtol=1e-9)
    t.eq(f.get_params(), (f.p, case['r']), 'get_params')
    p, r = float(f.p), case['r']
    G = k(D2, p)
    A = G if r is None else G + r * np.eye(n)
    cond = np.linalg.cond(A)
    sc = np.abs(v).max() + 1e-300
    wn = np.abs(f.w).max()
    gm = np.abs(G).max()
    # linear system
    if r is not None or cond < 1e8:
        t.close(A @ f.w, v, '(G + r I) w = values', rtol=0, atol=1e-9 * (gm * wn * n + sc))
    if r in (0, None) and cond < 1e8:
        t.close(f(P), v, 'interpolation at the data', rtol=0, atol=1e-5 * sc + 1e-13 * gm * wn * n)
        t.ok(f.fit_error(P, v) <= (1e-5 * sc + 1e-13 * gm * wn * n)**2, 'fit error')
    # expansion
    rg = rng(case, 5)
    X = rg.uniform(-0.2, 1.2, (7, P.shape[1])) * (P.max() - P.min()) + P.min()
    want = k(dist2(X, P.astype(float)), p) @ f.w
    at = 1e-10 * (gm * wn * n + 1e-300)
    t.close(f(X), want, 'kernel expansion', rtol=1e-9, atol=at)
    t.close(f.predict(X), want, 'predict', rtol=1e-9, atol=at)
    one = f(X[0])
    t.ok(np.ndim(one) == 0, 'scalar for one point')
    t.shape(f(X[:1]), (1,), 'array for an array with one point')
    t.close(one, want[0], 'single point', rtol=1e-9, atol=at)
    res = v - f(P)
    t.close(f.fit_error(P, v), (res**2).mean(), 'fit_error', rtol=1e-6, atol=1e-20 * sc**2)
    # negative p (the optimizer may try it): same model but for a penalty
    if not isinstance(f.rbf, str) and case['val'] != 'big':
        fn = rbf.Rbf(P, v, **dict(kw, p=-abs(p)))
        e_ = ((v + 0.1 - fn(P))**2).mean()
        if e_ < 100:
            t.close(fn.fit_error(P, v + 0.1), math.exp(e_), 'fit_error for p < 0', rtol=1e-9)
    # repeated fits
    for m in (f, f.predict) + ((f.deriv,) if hasattr(f, 'deriv') else ()):
        t.independent('Rbf', m, X)
    w0 = f.w.copy()
    f.fit()
    t.close(f.w, w0, 'repeated fit', rtol=1e-12, atol=1e-12 * wn)
    g = rbf.Rbf(P, v, **kw)
    t.close(g.w, w0, 'second model', rtol=1e-12, atol=1e-12 * wn)
    h = rbf.Rbf(P, v, fit=False, **kw)
    t.ok(not hasattr(h, 'w'), 'fit=False')
    h.fit()
    t.close(h.w, w0, 'fit() later', rtol=1e-12, atol=1e-12 * wn)
    # linear in the values
    if cond < 1e8 and case['val'] != 'zero':
        f2 = rbf.Rbf(P, 3.0 * v, **kw)
        t.close(f2(X), 3.0 * f(X), 'linear in the values', rtol=1e-5, atol=1e-6 * sc + 1e-11 * gm * wn * n)
    with t.raises(AssertionError, msg='wrong ndim'):
        f(np.zeros((2, P.shape[1] + 1)))
    with t.raises(AssertionError, msg='number of values'):
        rbf.Rbf(P, v[:-1])
    t.nontrivial(case['val'] != 'zero')
    t.label(case['kern'], 'r=%s' % r)


@sub(D(**MODEL), quick=250, thorough=5000)
def derivatives(case, t):
    P, v, D2, kw = build(case)
    f = rbf.Rbf(P, v, **kw)
    r = rng(case, 5)
    nd = P.shape[1]
    k = 'multi' if case['kern'] == 'callable' else case['kern'] or 'gauss'
    ext = float(P.max() - P.min()) or 1.0
    X = r.uniform(0, 1, (5, nd)) * ext + P.min()
    X[0] = P[0]
    with t.unchanged(X=X):
        d = f(X, der=1)
    t.shape(d, (5, nd), 'gradient')
    # expansion with the analytic kernel gradient
    w, p = f.w, float(f.p)
    want = np.zeros((5, nd))
    for i, x in enumerate(X):
        dx = x - P
        s = (dx**2).sum(1)
        g = {'gauss': -1 / p**2 * np.exp(-s / (2 * p * p)), 'multi': 1 / np.sqrt(s + p * p), 'inv_multi': -(s + p * p)**-1.5}[k]
        want[i] = (w * g) @ dx
    mag = np.abs(w).sum() * {'gauss': 1 / p, 'multi': 1.0, 'inv_multi': 1 / p**2}[k]
    t.close(d, want, 'gradient of the expansion', rtol=1e-8, atol=1e-11 * mag + 1e-300)
    t.close(f.deriv(X), d, 'deriv', rtol=1e-12, atol=0)
    t.close(f(X[1], der=1), d[1], 'single point gradient', rtol=1e-9, atol=1e-12 * mag)
    t.shape(f(X[1], der=1), (nd,), 'single point gradient shape')
    t.shape(f(X[1:2], der=1), (1, nd), 'gradient of an array with one point')
    # and of the prediction itself
    kmax = {'gauss': 1.0, 'multi': float(np.sqrt(D2.max()) + p), 'inv_multi': 1 / p}[k]
    h = 1e-4 * p
    num = np.array([(f(X + h * e) - f(X - h * e)) / (2 * h) for e in np.eye(nd)]).T
    t.close(d, num, 'finite differences of the prediction', rtol=1e-4, atol=1e-6 * mag + 1e-15 * np.abs(w).sum() * kmax / h * 10)
    with t.raises(Exception, msg='der=2'):
        f(X, der=2)
    t.nontrivial(case['val'] != 'zero')


@sub(D(seed=seeds, n=ints(6, 14), nd=ints(1, 2), method=pick(['de', 'fmin', 'brute', 'brute_nofinish']), what=pick(['p', 'pr']), cv=pick([None, 'kfold', 'obj']), kern=pick([None, 'multi', 'inv_multi']), given=bools), quick=40, thorough=400, budget=(25, 300))
def hyperopt_best(case, t):
    """the optimum is at least as good as all other parameters of the search box"""
    from sklearn.model_selection import KFold
    r = rng(case)
    P = points(r, case['n'], case['nd'], 1.0)
    v = np.sin(3 * P.sum(1)) + 0.05 * r.normal(size=len(P))
    rk = {} if case['kern'] is None else dict(rbf=case['kern'])
    if case['what'] == 'p' and case['given']:
        rk['r'] = 1e-4
    cv = {None: None, 'kfold': dict(n_splits=3, n_repeats=1, random_state=1), 'obj': KFold(3)}[case['cv']]
    box = [(0.1, 1.5), (1e-6, 1e-2)][:len(case['what'])]
    m = case['method']
    ok = dict(de=dict(bounds=box, maxiter=4, popsize=5, seed=1), fmin=dict(x0=[0.5, 1e-4][:len(box)], maxiter=30),
              brute=dict(ranges=box, Ns=5), brute_nofinish=dict(ranges=box, Ns=5, finish=None))[m]
    with t.unchanged(P=P, v=v, ok=ok, rk=rk, cv=cv if case['cv'] != 'obj' else None):
        f = hyperopt.fit_opt(P, v, method=m.split('_')[0], what=case['what'], cv=cv, opt_kwds=ok, rbf_kwds=rk)
    best = (f.p, f.r)[:len(box)]
    err = hyperopt.FitError(P, v, cv=cv, rbf_kwds=rk)
    e0 = err(best)
    if m == 'fmin':
        t.ok(e0 <= err(ok['x0']) * (1 + 1e-9), 'better than the start')
        x0 = [float(r.uniform(a, b)) for a, b in box]
        q = hyperopt.fit_opt(P, v, method=m, what=case['what'], cv=cv, opt_kwds=dict(x0=x0, maxiter=0), rbf_kwds=rk)
        t.close((q.p, q.r)[:len(box)], x0, 'no iterations: the start values', rtol=.11)
    elif m.startswith('brute'):
        g = np.meshgrid(*[np.linspace(a, b, 5) for a, b in box], indexing='ij')
        for q in zip(*[x.ravel() for x in g]):
            t.ok(e0 <= err(q) * (1 + 1e-9) + 1e-14, 'error %g at the optimum %s, %g at %s' % (e0, best, err(q), q))
    else:
        t.ok(all(a <= x <= b for x, (a, b) in zip(best, box)), 'inside of the bounds')
        es = [err(r.uniform([a for a, b in box], [b for a, b in box])) for _ in range(12)]
        t.ok(e0 <= np.median(es) * (1 + 1e-9), 'better than random parameters')
    w = rbf.Rbf(P, v, p=best[0], r=best[1] if len(box) > 1 else rk.get('r', 0), **({} if case['kern'] is None else dict(rbf=case['kern'])))
    X = r.uniform(0, 1, (4, case['nd']))
    t.close(f(X), w(X), 'returned model is the one of the optimum', rtol=1e-9)
    if case['what'] == 'p':
        t.eq(f.r, rk.get('r', 0), 'r is kept')
    # a second call with the same dicts gives the same answer
    if m != 'de' or True:
        g2 = hyperopt.fit_opt(P, v, method=m.split('_')[0], what=case['what'], cv=cv, opt_kwds=ok, rbf_kwds=rk)
        t.close(g2(X), f(X), 'second call', rtol=1e-9)
    for bad in (dict(method='xyz'), dict(what='q'), dict(what='p', rbf_kwds=dict(p=1.0))):
        with t.raises(AssertionError, msg=str(bad)):
            hyperopt.fit_opt(P, v, **bad)
    t.nontrivial()
    t.label(m, case['what'])


@sub(D(seed=seeds, n=ints(6, 20), nd=ints(1, 3), ns=ints(2, 5), nr=ints(1, 3), p=floats(0.1, 2), r=pick([None, 0, 1e-3, 'no']), kern=pick([None, 'multi'])), quick=100, thorough=1500)
def cross_validation(case, t):
    from sklearn.model_selection import RepeatedKFold
    rg = rng(case)
    P = points(rg, case['n'], case['nd'], 1.0)
    v = rg.normal(size=len(P))
    rk = {} if case['kern'] is None else dict(rbf=case['kern'])
    par = [case['p']] if case['r'] == 'no' else [case['p'], case['r']]
    mk = lambda q, w: rbf.Rbf(q, w, p=par[0], r=par[1] if len(par) > 1 else 0, **rk)
    cvd = dict(n_splits=case['ns'], n_repeats=case['nr'], random_state=7)
    e = hyperopt.FitError(P, v, cv=cvd, rbf_kwds=rk)
    want = []
    for a, b in RepeatedKFold(**cvd).split(P):
        t.ok(not set(a) & set(b), 'split')
        want.append(((v[b] - mk(P[a], v[a])(P[b]))**2).mean())
    t.eq(len(want), case['ns'] * case['nr'], 'number of folds')
    with t.unchanged(P=P, v=v, cvd=cvd, rk=rk):
        t.close(e.cv(par), want, 'cv', rtol=1e-8)
        t.close(e.err_cv(par), np.mean(want), 'err_cv', rtol=1e-8)
        t.close(e(par), np.mean(want), '__call__', rtol=1e-8)
    d = ((v - mk(P, v)(P))**2).mean()
    t.close(e.err_direct(par), d, 'err_direct', rtol=1e-8, atol=1e-25)
    e2 = hyperopt.FitError(P, v, cv=None, rbf_kwds=rk)
    t.close(e2(par), d, 'cv=None', rtol=1e-8, atol=1e-25)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t.close(hyperopt.FitError(P, v, cv_kwds=cvd, rbf_kwds=rk)(par), np.mean(want), 'cv_kwds', rtol=1e-8)
        t.close(hyperopt.FitError(P, v, cv=None, cv_kwds=cvd, rbf_kwds=rk)(par), np.mean(want), 'cv_kwds, cv=None', rtol=1e-8)
    with t.raises(Exception, msg='too many params'):
        e([1.0, 0, 3])
    t.nontrivial()


@sub(D(seed=seeds, na=ints(1, 8), nb=ints(1, 8), nd=ints(1, 5), p=floats(0.05, 20)), quick=100, thorough=1500)
def distances_kernels(case, t):
    r = rng(case)
    a, b = r.normal(size=(case['na'], case['nd'])), r.normal(size=(case['nb'], case['nd']))
    D2 = dist2(a, b)
    t.close(core.squared_dists(a, b), D2, 'squared_dists', rtol=1e-9)
    t.close(core.euclidean_dists(a, b), np.sqrt(D2), 'euclidean_dists', rtol=1e-9)
    if hasattr(core, '_np_distsq'):
        t.close(core._np_distsq(a, b), D2, '_np_distsq', rtol=1e-9)
    f = rbf.Rbf(a, r.normal(size=len(a)), p=1.0, fit=False)
    t.close(f.get_distsq(b), D2.T, 'get_distsq(points)', rtol=1e-9)
    t.close(f.get_distsq(), dist2(a, a), 'get_distsq()', rtol=1e-9)
    for k, fn in KERN.items():
        t.close(core.rbf_dct[k](D2, case['p']), fn(D2, case['p']), k, rtol=1e-10)
    t.close(core.rbf_dct['gauss'](0.0, case['p']), 1.0, 'gauss(0)')
    with t.raises(Exception, msg='illegal p'):
        rbf.Rbf(a, np.zeros(len(a)), p='abc')
    t.nontrivial()


@sub(D(seed=seeds, n=ints(8, 12)), quick=4, thorough=40, budget=(20, 120))
def documented_defaults(case, t):
    """differential evolution of p and r, five-fold cross validation"""
    r = rng(case, 9)
    P = points(r, case['n'], 1, 1.0)
    v = np.sin(3 * P.sum(1)) + 0.05 * r.normal(size=len(P))

    def opt(**kw):
        np.random.seed(case['seed'] % 2**32)
        f = hyperopt.fit_opt(P, v, opt_kwds=dict(bounds=[(.1, 1.5), (1e-6, 1e-2)], maxiter=1, popsize=3, seed=1, polish=False), **kw)
        return [float(f.p), float(f.r)]
    t.defaults(opt, method='de', what='pr', cv=dict(n_splits=5, n_repeats=1), cv_kwds=None, rbf_kwds={})
    t.nontrivial()
