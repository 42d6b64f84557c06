from pv import *
import warnings, stat
from pwtools import eos, num, constants, thermo
warnings.filterwarnings('ignore')

RULE = ('Vinet energy-volume data over random parameters, point sets and orders, exact or noisy; fake eos.x executables writing prescribed tables; '
        'non-trivial if there are at least 5 points with the minimum inside')

GPA = constants.eV_by_Ang3_to_GPa


def vinet(V, p):
    x = (V / p['v0'])**(1. / 3)
    c = 1.5 * (p['b1'] - 1)
    # E0 + 4 B0 V0/(b1-1)^2 (1 - (1 + c (x-1)) exp(-c (x-1))), integrated P(V) of the Vinet form
    return p['e0'] + 4 * p['b0'] * p['v0'] / (p['b1'] - 1)**2 * (1 - (1 + c * (x - 1)) * np.exp(-c * (x - 1)))


def pressure(V, p):
    x = (V / p['v0'])**(1. / 3)
    return 3 * p['b0'] * (1 - x) / x**2 * np.exp(1.5 * (p['b1'] - 1) * (1 - x))


def dif(f, x, h):
    return (-f(x + 2 * h) + 8 * f(x + h) - 8 * f(x - h) + f(x - 2 * h)) / (12 * h)


PAR = dict(seed=seeds, v0=floats(4, 150), b0=floats(0.05, 3.0), b1=floats(3, 8), e0=pick([0.0, -5.3, -300.0, 12.0]), n=ints(6, 25), lo=floats(0.80, 0.93), hi=floats(1.07, 1.2),
           order=pick(['up', 'down', 'random']))


def data(case):
    r = rng(case)
    p = {k: case[k] for k in ('v0', 'b0', 'b1', 'e0')}
    V = np.linspace(case['lo'], case['hi'], case['n']) * p['v0']
    if case['seed'] % 3 == 0:
        V[1:-1] += r.uniform(-.3, .3, len(V) - 2) * (V[1] - V[0])
    if case['order'] == 'down':
        V = V[::-1].copy()
    elif case['order'] == 'random':
        V = r.permutation(V)
    return p, V, vinet(V, p)


def parabola_inside(V, E):
    a, b, c = np.polyfit(V, E, 2)
    v = -b / (2 * a)
    return a > 0 and V.min() < v < V.max()


@sub(D(**PAR), quick=400, thorough=8000)
def recovers_exact_data(case, t):
    p, V, E = data(case)
    if not parabola_inside(V, E):
        t.skip()
    t.nontrivial()
    with t.unchanged(V=V, E=E):
        f = eos.EosFit(V, E)
    for k, tol in dict(v0=1e-5, b0=1e-3, b1=2e-2).items():
        t.close(f.params[k], p[k], k, rtol=tol)
    sc = p['b0'] * p['v0']
    t.close(f.params['e0'], p['e0'], 'e0', rtol=1e-9, atol=1e-6 * sc)
    t.close(f.get_min(), p['v0'], 'get_min', rtol=1e-5)
    x = rng(case, 2).uniform(case['lo'], case['hi'], 5) * p['v0']
    t.close(f(x), vinet(x, p), 'E(V)', rtol=1e-9, atol=1e-6 * sc)
    t.close(f.pressure(x), pressure(x, p) * GPA, 'P(V)', rtol=1e-3, atol=1e-4 * p['b0'] * GPA)
    t.close(f.bulkmod(x), -x * dif(lambda v: pressure(v, p), x, 1e-4 * p['v0']) * GPA, 'B(V)', rtol=5e-3)
    t.close(f.bulkmod(f.get_min()), f.params['b0'] * GPA, 'B(V0) = B0', rtol=1e-6)
    t.close(f.pressure(f.get_min()), 0.0, 'P(V0) = 0', atol=1e-9 * GPA * p['b0'])
    t.close(f(f.get_min()), f.params['e0'], 'E(V0) = E0', rtol=1e-10, atol=1e-10 * sc)
    t.ok((f(x) >= f(f.get_min()) - 1e-9 * sc - 1e-9 * abs(p['e0'])).all(), 'get_min is the minimum')
    # scalars and arrays alike
    for g in (f, f.pressure, f.bulkmod, lambda v: f(v, der=1), lambda v: f(v, der=2)):
        t.close(np.array([g(v) for v in x]), g(x), 'scalar and array', rtol=1e-12, atol=1e-12)
    t.close(f.spl(x), f(x), 'spline through the curve', rtol=1e-9, atol=1e-8 * sc)
    # thermo.Gibbs-like usage: derivative by Fit1D
    t.eq(f.params.keys(), dict(e0=0, b0=0, b1=0, v0=0).keys(), 'params')


@sub(D(**PAR, noise=pick([0.0, 1e-5, 1e-4])), quick=250, thorough=5000)
def least_squares_and_invariance(case, t):
    p, V, E = data(case)
    sc = p['b0'] * p['v0']
    E = E + rng(case, 3).normal(size=len(V)) * case['noise'] * sc
    if not parabola_inside(V, E) or E.argmin() in (V.argmin(), V.argmax()):
        t.skip()
    f = eos.EosFit(V, E)
    q = f.params
    t.nontrivial(case['noise'] > 0)
    # stationarity of the sum of squares
    res = E - vinet(V, q)
    # (a noisy fit may end near b1 = 1, where the formula cancels)
    t.close(E - f(V), res, 'residual', rtol=1e-6, atol=1e-9 * (sc + abs(p['e0'])) + 1e-13 * abs(q['b0'] * q['v0']) / (q['b1'] - 1)**2)
    from scipy.optimize import least_squares
    k4 = ('e0', 'b0', 'b1', 'v0')
    x0 = np.array([p[k] for k in k4])
    ind = least_squares(lambda y: (E - p['e0'] - vinet(V, dict(zip(k4, y), e0=y[0])) ) / sc, x0 * [0, 1, 1, 1], x_scale=[sc, p['b0'], p['b1'], p['v0']], xtol=1e-14, ftol=1e-14, gtol=1e-14)
    best = 2 * ind.cost * sc**2
    t.ok((res**2).sum() <= 1.02 * best + len(V) * (2e-7 * (sc + abs(p['e0'])))**2, 'not the least-squares solution: %g, an independent fit has %g' % ((res**2).sum(), best))
    pm = rng(case, 4).permutation(len(V))
    g = eos.EosFit(V[pm], E[pm])
    c = 7.25
    h = eos.EosFit(V, E + c)
    ct = (1e-6 + 0.7 * case['noise']) * sc
    t.close(g(V), f(V), 'order of points', rtol=1e-8, atol=ct)
    t.close(h(V), f(V) + c, 'energy offset', rtol=1e-8, atol=ct)
    if case['noise'] <= 1e-5:
        tol = dict(v0=1e-3, b0=3e-2, b1=0.2)
        for k in tol:
            t.close(g.params[k], q[k], 'order of points ' + k, rtol=tol[k])
            t.close(h.params[k], q[k], 'energy offset ' + k, rtol=tol[k])
    # scaling volume and energy
    s = eos.EosFit(2 * V, 3 * E)
    t.close(s(2 * V), 3 * f(V), 'scaled curve', rtol=1e-8, atol=3 * ct)


@sub(D(**PAR), quick=250, thorough=5000)
def vinet_derivatives(case, t):
    p = {k: case[k] for k in ('v0', 'b0', 'b1', 'e0')}
    V = rng(case).uniform(0.5, 2, 6) * p['v0']
    f = eos.Vinet()
    t.nontrivial()
    sc = p['b0'] * p['v0']
    t.close(f(V, p), vinet(V, p), 'E(V)', rtol=1e-10, atol=1e-11 * sc)
    t.close(f.evaluate(V, p), f(V, p), 'evaluate')
    cs = lambda g, v: np.imag(g(v + 1e-20j * p['v0'])) / (1e-20 * p['v0'])
    d1 = cs(lambda v: vinet(v, p), V)
    t.close(f(V, p, der=1), d1, 'dE/dV', rtol=1e-9, atol=1e-11 * p['b0'])
    t.close(f.deriv(V, p, 1), d1, 'deriv', rtol=1e-9, atol=1e-11 * p['b0'])
    t.close(f(V, p, der=1), -pressure(V, p), 'P = -dE/dV', rtol=1e-9, atol=1e-11 * p['b0'])
    t.close(f(V, p, der=2), -cs(lambda v: pressure(v, p), V), 'd2E/dV2', rtol=1e-9, atol=1e-11 * p['b0'] / p['v0'])
    v0 = np.array([p['v0']])
    t.close(f(v0, p, der=2) * v0, [p['b0']], 'B0', rtol=1e-9)
    B = lambda v: -v * cs(lambda u: pressure(u, p), v)
    h = 1e-4 * p['v0']
    t.close((B(v0 + h) - B(v0 - h)) / (pressure(v0 + h, p) - pressure(v0 - h, p)), [p['b1']], "B1 = dB/dP at V0", rtol=1e-5)
    for d in (3, 4):
        with t.raises(eos.MaxDerivException, msg='der=%i' % d):
            f(V, p, der=d)
    t.eq(f.lst2dct(f.dct2lst(p)), p, 'dct2lst/lst2dct')
    t.eq(f.dct2lst(p), [p[k] for k in f.param_order], 'order')


class NoDeriv(eos.EVFunction):
    def evaluate(self, V, p):
        return vinet(V, p)

    def deriv(self, V, p, der=None):
        raise eos.MaxDerivException('no')


class Renamed(NoDeriv):
    """another parametrisation with other parameter names; same E(V)"""
    def lst2dct(self, lst):
        return dict(zip(['A', 'B', 'C', 'D'], lst))

    def dct2lst(self, d):
        return [d[k] for k in ['e0', 'b0', 'b1', 'v0']]

    def evaluate(self, V, p):
        return vinet(V, dict(e0=p['A'], b0=p['B'], b1=p['C'], v0=p['D']))


@sub(D(**dict(PAR, order=pick(['up'])), cls=pick(['noderiv', 'renamed']), spp=pick([None, 200])), quick=100, thorough=2000)
def spline_fallback(case, t):
    p, V, E = data(case)
    if not parabola_inside(V, E):
        t.skip()
    t.nontrivial()
    ref = eos.EosFit(V, E)
    kw = dict(splpoints=case['spp']) if case['spp'] else {}
    f = eos.EosFit(V, E, func=NoDeriv() if case['cls'] == 'noderiv' else Renamed(), **kw)
    t.eq(len(f.spl.x), case['spp'] or 500, 'splpoints')
    x = np.linspace(V.min(), V.max(), 9)[1:-1]
    sc = p['b0'] * p['v0']
    t.close(f(x), ref(x), 'E', rtol=1e-8, atol=1e-6 * sc)
    for d in (1, 2):
        w = ref(x, der=d)
        t.close(f(x, der=d), w, 'der=%i' % d, rtol=1e-3, atol=1e-3 * np.abs(w).max() + 3e-7 * (abs(p['e0']) + sc) / p['v0']**d)
    t.close(f.get_min(), p['v0'], 'get_min', rtol=1e-4)
    t.close(f.pressure(x), -f(x, der=1) * GPA, 'pressure', rtol=1e-10)
    t.close(f.bulkmod(x), x * f(x, der=2) * GPA, 'bulkmod', rtol=1e-10)
    t.close(ref(x, der=3), ref.spl(x, der=3), 'third derivative from the spline', rtol=1e-10)
    pr = lambda v: -pressure(v, p)
    h = 1e-3 * p['v0']
    w = (pr(x + h) - 2 * pr(x) + pr(x - h)) / h**2
    if p['e0'] == 0:
        t.close(ref(x, der=3), w, 'third derivative', rtol=2e-2, atol=2e-2 * np.abs(w).max())


class BirchMurnaghan(eos.EVFunction):
    def evaluate(self, V, p):
        y = (p['v0'] / V)**(2. / 3)
        return p['e0'] + 9 * p['v0'] * p['b0'] / 16 * ((y - 1)**3 * p['b1'] + (y - 1)**2 * (6 - 4 * y))

    def deriv(self, V, p, der=None):
        if der != 1:
            raise eos.MaxDerivException('only first')
        y = (p['v0'] / V)**(2. / 3)
        dy = -2. / 3 * y / V
        return 9 * p['v0'] * p['b0'] / 16 * dy * (3 * p['b1'] * (y - 1)**2 + 2 * (y - 1) * (6 - 4 * y) - 4 * (y - 1)**2)


@sub(D(**dict(PAR, order=pick(['up', 'down', 'random']))), quick=100, thorough=2000)
def user_function(case, t):
    """another equation of state with its own derivatives"""
    p, V, _ = data(case)
    bm = BirchMurnaghan()
    E = bm(V, p)
    if not parabola_inside(V, E):
        t.skip()
    t.nontrivial()
    with t.unchanged(V=V, E=E):
        f = eos.EosFit(V, E, func=bm)
    sc = p['b0'] * p['v0']
    for k, tol in dict(v0=1e-5, b0=1e-3, b1=2e-2).items():
        t.close(f.params[k], p[k], k, rtol=tol)
    x = np.linspace(V.min(), V.max(), 9)[1:-1]
    t.close(f(x), bm(x, p), 'E(V)', rtol=1e-9, atol=1e-6 * sc)
    d1 = bm(x, p, der=1)
    t.close(f.pressure(x), -d1 * GPA, 'pressure', rtol=1e-3, atol=1e-4 * np.abs(d1).max() * GPA)
    h = 1e-4 * p['v0']
    d2 = (bm(x + h, p, der=1) - bm(x - h, p, der=1)) / (2 * h)
    t.close(f.bulkmod(x), x * d2 * GPA, 'bulk modulus', rtol=1e-2, atol=(1e-3 * np.abs(x * d2).max() + 3e-7 * (abs(p['e0']) + sc) / p['v0']) * GPA)
    t.close(f.get_min(), p['v0'], 'get_min', rtol=1e-5)


@sub(D(**dict(PAR, e0=pick([-5e3, -4e4, -1e6, 3e5]), b0=floats(0.5, 3.0), order=pick(['up'])), cls=pick(['own', 'noderiv']), spp=pick([None, 200])), quick=60, thorough=1000)
def large_energies(case, t):
    """all-electron total energies: minimum, curve and spline"""
    p, V, E = data(case)
    if not parabola_inside(V, E):
        t.skip()
    t.nontrivial()
    kw = dict(splpoints=case['spp']) if case['spp'] else {}
    f = eos.EosFit(V, E, **kw) if case['cls'] == 'own' else eos.EosFit(V, E, func=NoDeriv(), **kw)
    a = 1e-9 * abs(p['e0'])
    x = np.linspace(V.min(), V.max(), 9)
    t.close(f(x), vinet(x, p), 'E(V)', rtol=0, atol=a + 3e-3 * p['b0'] * p['v0'])
    t.close(f.spl(x), f(x), 'spline through the curve', rtol=0, atol=a)
    t.eq(len(f.spl.x), case['spp'] or 500, 'splpoints')
    t.close(f.params['v0'], p['v0'], 'v0', rtol=2e-2)
    if case['cls'] == 'own':
        t.close(f.get_min(), f.params['v0'], 'get_min', rtol=1e-5)
        t.close(f.pressure(f.params['v0']), 0.0, 'P(V0) = 0', atol=1e-6 * GPA * p['b0'])


@sub(D(**dict(PAR, order=pick(['up'])), natoms=ints(1, 4), npoints=ints(30, 120), bv=pick(['ev', 'pv']), where=pick(['PATH', 'abs', 'rel']), etype=ints(1, 7), etypedef=bools), quick=40, thorough=500, budget=(30, 240))
def external_fit(case, t):
    """ElkEOSFit with a stand-in eos.x that stores its input and writes prescribed tables"""
    p, V, E = data(case)
    t.nontrivial()
    r = rng(case, 5)
    n, na = case['npoints'], case['natoms']
    B3 = constants.Bohr**3 / constants.Ang**3
    Ha = constants.Ha / constants.eV
    vv = np.linspace(V[0], V[-1], n)
    ev = np.array([vv / B3 / na, vinet(vv, p) / Ha / na]).T
    pvt = np.array([vv / B3 / na, pressure(vv, p) * GPA]).T
    cwd, path = os.getcwd(), os.environ.get('PATH', '')
    with tmpdir() as d:
        try:
            os.chdir(d)
            os.mkdir('bin')
            np.savetxt('bin/ev', ev, fmt='%.17g'); np.savetxt('bin/pv', pvt, fmt='%.17g')
            with open('bin/eos.x', 'w') as f:
                f.write('#!/bin/sh\ncp %s/bin/ev EVPAI.OUT && cp %s/bin/pv PVPAI.OUT && echo par > PARAM.OUT && cp eos.in seen.in\n' % (d, d))
            os.chmod('bin/eos.x', 0o755)
            app = dict(PATH='eos.x', abs=os.path.join(d, 'bin/eos.x'), rel='bin/eos.x')[case['where']]
            if case['where'] == 'PATH':
                os.environ['PATH'] = os.path.join(d, 'bin') + ':' + path
            kw = {} if case['etypedef'] else dict(etype=case['etype'], name='bar')
            with t.unchanged(V=V, E=E):
                fit = eos.ElkEOSFit(app=app, energy=E, volume=V, natoms=na, npoints=n, dir='work' if case['seed'] % 2 else None, bv_method=case['bv'], verbose=False, **kw)
                fit.fit()
            seen = open(os.path.join('work' if case['seed'] % 2 else 'eos.x', 'seen.in')).read()
        finally:
            os.chdir(cwd)
            os.environ['PATH'] = path
    ln = [x for x in seen.replace(',', ' ').split('\n') if x.strip()]
    t.eq(ln[0].strip(), kw.get('name', 'foo'), 'name')
    t.eq([int(ln[1]), int(ln[2])], [na, kw.get('etype', 1)], 'natoms, etype')
    w = ln[3].split()
    t.close([float(w[0]), float(w[1])], [V[0] / B3, V[-1] / B3], 'volume interval', rtol=1e-5, atol=1e-5)
    t.eq([int(w[2]), int(ln[4])], [n, len(V)], 'point numbers')
    tab = np.array([[float(z) for z in x.split()] for x in ln[5:]])
    t.close(tab, np.array([V / B3, E / Ha]).T, 'input table', rtol=1e-9, atol=1e-9)
    t.close(fit.ev, np.array([vv, vinet(vv, p)]).T, 'ev', rtol=1e-9, atol=1e-9)
    t.close(fit.pv, np.array([vv, pressure(vv, p) * GPA]).T, 'pv', rtol=1e-9, atol=1e-9)
    sc = p['b0'] * p['v0']
    B = -vv * dif(lambda v: pressure(v, p), vv, 1e-4 * p['v0']) * GPA
    t.close(fit.bv[:, 0], vv, 'bv volume', rtol=1e-9)
    inn = slice(4, -4)
    tol = 3e-3 if case['bv'] == 'ev' else 2e-3
    t.close(fit.bv[inn, 1], B[inn], 'B(V)', rtol=tol, atol=tol * B.max())
    x = r.uniform(case['lo'] + .03, case['hi'] - .03, 5) * p['v0']
    t.close(fit.spl_ev(x), vinet(x, p), 'spl_ev', rtol=1e-6, atol=1e-4 * sc)
    t.close(fit.spl_pv(x), pressure(x, p) * GPA, 'spl_pv', rtol=1e-3, atol=1e-3 * p['b0'] * GPA)
    m = fit.get_min()
    t.close(m['v0'], p['v0'], 'v0', rtol=1e-3)
    t.close(m['e0'], p['e0'], 'e0', rtol=1e-9, atol=1e-5 * sc)
    t.close(m['p0'], 0.0, 'p0', atol=3e-3 * p['b0'] * GPA)
    t.close(m['b0'], p['b0'] * GPA, 'b0', rtol=tol * 2)
    t.eq(fit.get_min(behave='old'), np.array([m['v0'], m['e0'], m['p0'], m['b0']]), 'old format')
    fit.set_bv_method('pv')
    t.close(fit.calc_bv()[inn, 1], B[inn], 'B(V) from P(V)', rtol=2e-3, atol=2e-3 * B.max())
    t.close(fit.get_min()['v0'], p['v0'], 'root of P', rtol=1e-3)
    fit.set_bv_method('nix')
    with t.raises(Exception, msg='bv_method'):
        fit.calc_bv()


@sub(D(**dict(PAR, order=pick(['up']))), quick=15, thorough=150)
def documented_defaults(case, t):
    """one atom, Elk's eos.x, equation 1, 300 points, B(V) from E(V); 500 points of the spline"""
    p, V, E = data(case)
    t.nontrivial()
    f, g = eos.EosFit(V, E), eos.EosFit(V, E, func=eos.Vinet(), splpoints=500)
    t.eq(f.spl.x, g.spl.x, 'splpoints=500')
    t.eq(f.params, g.params, 'func=Vinet()')
    t.close(f(V), f(V, der=0), 'der=0', rtol=1e-13)
    for der in (0, 1, 2):
        t.independent('EosFit', f, V, der=der)
    t.independent('pressure', f.pressure, V)
    t.independent('bulkmod', f.bulkmod, V)
    vv = np.linspace(V[0], V[-1], 300)
    cwd, path = os.getcwd(), os.environ.get('PATH', '')
    with tmpdir() as d:
        try:
            os.chdir(d)
            os.mkdir('bin')
            np.savetxt('bin/ev', np.array([vv, vinet(vv, p)]).T, fmt='%.17g')
            np.savetxt('bin/pv', np.array([vv, pressure(vv, p)]).T * 1.01, fmt='%.17g')
            with open('bin/eos.x', 'w') as fh:
                fh.write('#!/bin/sh\ncp %s/bin/ev EVPAI.OUT && cp %s/bin/pv PVPAI.OUT && echo par > PARAM.OUT && cp eos.in seen.in\n' % (d, d))
            os.chmod('bin/eos.x', 0o755)
            os.environ['PATH'] = os.path.join(d, 'bin') + ':' + path
            res = []
            for kw in ({}, dict(app='eos.x', natoms=1, name='foo', etype=1, npoints=300, bv_method='ev', dir=None)):
                shutil.rmtree('eos.x', ignore_errors=True)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    fit = eos.ElkEOSFit(energy=E, volume=V, verbose=False, **kw)
                    fit.fit()
                res.append((open('eos.x/seen.in').read(), fit.ev, fit.pv, fit.bv, fit.get_min()))
        finally:
            os.chdir(cwd)
            os.environ['PATH'] = path
    for a, b, n in zip(*res, ('input', 'E(V)', 'P(V)', 'B(V)', 'get_min')):
        t.ok(near(a, b), 'ElkEOSFit with documented defaults: %s: %s != %s' % (n, short(a), short(b)))
