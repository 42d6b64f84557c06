from pv import *
import warnings
from scipy import integrate, interpolate
from pwtools import thermo, num, constants
warnings.filterwarnings('ignore')

RULE = ('random phonon DOS (Gaussians, gaps, single modes, negative and zero frequencies) and temperature axes from 0.05 K up, quasi-harmonic '
        'models on 1d/2d/3d axes grids with volume dependent DOS; non-trivial if the DOS has positive frequencies')

# the package's own constants, they are decided in C42
KB, HP, C0, EV = constants.kb, constants.hplanck, constants.c0, constants.eV
HC = HP * C0 * 100
GPA = EV / 1e-30 * 1e-9


def trap(y, x):
    y = np.asarray(y, float)
    return ((y[..., 1:] + y[..., :-1]) * 0.5 * (x[1:] - x[:-1])).sum(-1)


def ref(f, dos, T, integ=trap):
    """evib [eV], fvib [eV], svib [kb], cv [kb] (written with exp(-x) only)"""
    x = HC * f / (KB * T[:, None])
    with np.errstate(all='ignore'):
        em = np.exp(-x)
        n = em / -np.expm1(-x)
        e = integ(dos * f * (0.5 + n), f) * HC / EV
        lg = x / 2 + np.log1p(-em)
        F = integ(dos * lg, f) * T * KB / EV
        s = integ(dos * (x * n - np.log1p(-em)), f)
        c = integ(dos * x**2 * em / (-np.expm1(-x))**2, f)
    return e, F, s, c


def make_dos(case):
    r = rng(case, 1)
    n = case['nf']
    lo = {'pos': 5.0, 'neg': -30.0, 'zero': 0.0}[case['low']]
    f = np.linspace(lo, case['fmax'], n)
    if case['uneven']:
        f = np.sort(np.concatenate([[lo], r.uniform(lo, case['fmax'], n - 1)]))
        if case['low'] == 'pos':
            f = np.maximum.accumulate(f + np.arange(n) * 1e-3)
        else:
            f = f + np.arange(n) * 1e-3 * (f != 0)
    d = np.zeros(n)
    for _ in range(r.integers(1, 4)):
        d += r.uniform(0.2, 2) * np.exp(-(f - r.uniform(0, case['fmax']))**2 / (2 * (case['fmax'] * r.uniform(0.03, 0.2))**2))
    if case['gap']:
        d[(f > 0.4 * case['fmax']) & (f < 0.6 * case['fmax'])] = 0
    return f, d


DOS = dict(seed=seeds, nf=ints(5, 200), fmax=pick([50.0, 400.0, 1500.0, 4500.0]), low=pick(['pos', 'pos', 'neg', 'zero']), uneven=bools, gap=bools)
TS = dict(T=pick(['low', 'mid', 'wide', 'high', 'one']))


def temps(case):
    r = rng(case, 2)
    return dict(low=lambda: np.sort(r.uniform(0.05, 5, 4)), mid=lambda: np.linspace(50, 900, 7), wide=lambda: 10**r.uniform(-1, 4, 6),
                high=lambda: np.array([1e4, 1e5]), one=lambda: np.array([r.uniform(1, 500)]))[case['T']]()


@sub(D(**DOS, **TS, area=pick([None, 3.0, 12]), skip=pick([True, None]), how=pick(['init', 'arg', 'both', 'temp']), integ=pick(['trap', 'simps']), verbose=bools), quick=400, thorough=8000)
def harmonic_formulas(case, t):
    f, d = make_dos(case)
    T = temps(case)
    neg = case['low'] != 'pos'
    if neg and not case['skip']:
        case = dict(case, skip=True)
    kw = {}
    if case['skip']:
        kw['skipfreq'] = True
    if case['area']:
        kw['dosarea'] = case['area']
    integ = trap
    if case['integ'] == 'simps':
        kw['integrator'] = integrate.simpson
        integ = lambda y, x: integrate.simpson(y, x=x)
    m = f > 1.5 * np.finfo(float).eps if case['skip'] else np.ones(len(f), bool)
    if m.sum() < 3:
        t.skip()
    ff, dd = f[m], d[m]
    if dd.max() < 1e-3:
        t.skip()
    if case['area']:
        a0 = integ(dd, ff)
        if a0 < 1e-3:
            t.skip()
        dd = dd * case['area'] / a0
    t.nontrivial()
    T2 = T * 1.7
    init = dict(init=dict(T=T), arg={}, both=dict(T=T2), temp=dict(temp=T))[case['how']]
    args = (T,) if case['how'] in ('arg', 'both') else ()
    with t.unchanged(f=f, d=d, T=T):
        import io as _io, contextlib as _c
        with _c.redirect_stdout(_io.StringIO()):
            ha = thermo.HarmonicThermo(f, d, verbose=case['verbose'], **kw, **init)
            got = dict(e=ha.evib(*args), F=ha.fvib(*args), s=ha.svib(*args), c=ha.cv(*args))
            got2 = dict(e=ha.vibrational_internal_energy(*args), F=ha.vibrational_free_energy(*args), s=ha.vibrational_entropy(*args), c=ha.isochoric_heat_capacity(*args))
        with _c.redirect_stdout(_io.StringIO()):
            if 'T' in init or 'temp' in init:
                ha.cv(T[:1] * 1.3)
                T0 = init.get('T', init.get('temp'))
                t.close(ha.cv(), ha.cv(T0), 'the temperature of one call is not kept for the next', rtol=0, atol=0)
            else:
                with t.raises(ValueError, msg='the temperature of one call is not kept for the next'):
                    ha.fvib()
    if case['area']:
        t.close(integ(ha.dos, ha.f), float(case['area']), 'dosarea', rtol=1e-9)
    t.close(ha.f, ff, 'used frequencies', rtol=0, atol=0)
    exp = dict(zip('eFsc', ref(ff, dd, T, integ)))
    sc = trap(np.abs(dd), ff) + 1e-12
    tol = dict(e=1e-9, F=1e-9, s=2e-9 * (1 + HC * ff.max() / KB / T.min() * 1e-6), c=1e-9)
    for k in 'eFsc':
        t.close(got[k], exp[k], k, rtol=2e-6, atol=tol[k] * sc)
        t.close(got2[k], got[k], 'alias ' + k, rtol=0, atol=0)
        t.ok(np.isfinite(got[k]).all(), k + ' finite')
    # F = E - T S   (S in kb)
    t.close(got['F'], got['e'] - T * got['s'] * KB / EV, 'F = E - TS', rtol=1e-5, atol=1e-6 * sc)
    if case['integ'] == 'trap':
        t.ok((got['s'] > -1e-7 * sc).all() and (got['c'] > -1e-9 * sc).all(), 'S, Cv >= 0')
        t.ok((got['c'] <= trap(dd, ff) * (1 + 1e-6)).all(), 'Cv below Dulong-Petit')


@sub(D(**DOS, k=pick([0.5, 3.0, 10.0])), quick=150, thorough=3000)
def harmonic_derivatives_and_linearity(case, t):
    case = dict(case, low='pos')
    f, d = make_dos(case)
    t.nontrivial()
    r = rng(case, 3)
    T = np.sort(r.uniform(20, 1500, 4))
    h = 1e-3 * T
    g = lambda x, y=d: thermo.HarmonicThermo(f, y, T=x, verbose=False)
    sc = trap(d, f)
    kbev = KB / EV
    t.close((g(T + h).evib() - g(T - h).evib()) / (2 * h) / kbev, g(T).cv(), 'Cv = dE/dT', rtol=1e-4, atol=1e-5 * sc)
    t.close(-(g(T + h).fvib() - g(T - h).fvib()) / (2 * h) / kbev, g(T).svib(), 'S = -dF/dT', rtol=1e-4, atol=1e-5 * sc)
    t.close((g(T + h).svib() - g(T - h).svib()) / (2 * h) * T, g(T).cv(), 'Cv = T dS/dT', rtol=1e-4, atol=1e-5 * sc)
    for name in ('evib', 'fvib', 'svib', 'cv'):
        t.close(getattr(g(T, case['k'] * d), name)(), case['k'] * getattr(g(T), name)(), 'linear in dos ' + name, rtol=1e-10, atol=1e-12)
        # any order of temperatures, one by one
        p = r.permutation(len(T))
        t.close(getattr(g(T[p]), name)(), getattr(g(T), name)()[p], 'order of T', rtol=1e-12)
        t.close(np.array([getattr(g(None), name)(T[i:i + 1])[0] for i in range(len(T))]), getattr(g(T), name)(), 'one by one', rtol=1e-12)
    # limits
    zp = trap(d * f, f) * HC / EV / 2
    low = g(np.array([0.02]))
    t.close(low.evib()[0], zp, 'E -> zero point', rtol=1e-6)
    t.close(low.fvib()[0], zp, 'F -> zero point', rtol=1e-6)
    hi = g(np.array([1e7]))
    t.close(hi.cv()[0], trap(d, f), 'Dulong-Petit', rtol=1e-4)
    with t.raises(ValueError, msg='no temperature'):
        g(None).cv()
    with t.raises(AssertionError, msg='both T and temp'):
        thermo.HarmonicThermo(f, d, T=T, temp=T, verbose=False)
    with t.raises(AssertionError, msg='lengths'):
        thermo.HarmonicThermo(f, d[1:], T=T, verbose=False)


@sub(D(seed=seeds, fill=floats(-2, 2), n=ints(4, 30)), quick=80, thorough=800)
def nan_handling(case, t):
    r = rng(case)
    f = np.sort(np.concatenate([[0.0], r.uniform(20, 900, case['n'])]))
    d = r.uniform(0.1, 1, len(f))
    T = r.uniform(50, 500, 3)
    t.nontrivial()
    raw = thermo.HarmonicThermo(f, d, T=T, verbose=False)
    fix = thermo.HarmonicThermo(f, d, T=T, verbose=False, fixnan=True, nanfill=case['fill'])
    x = HC * f[1:] / KB / T[:, None]
    n = 1 / np.expm1(x)
    y = np.concatenate([np.full((3, 1), case['fill']), d[1:] * f[1:] * (0.5 + n)], 1)
    t.ok(np.isnan(raw.evib()).all(), 'nan is not hidden by default')
    t.close(fix.evib(), trap(y, f) * HC / EV, 'fixnan evib', rtol=1e-8)
    y = np.concatenate([np.full((3, 1), case['fill']), d[1:] * f[1:]**2 / np.sinh(x / 2)**2], 1)
    t.close(fix.cv(), trap(y, f) * (HC / (2 * KB * T))**2, 'fixnan cv', rtol=1e-8)
    sk = thermo.HarmonicThermo(f, d, T=T, verbose=False, skipfreq=True)
    t.close(sk.f, f[1:], 'skip f=0')
    eps = float(f[2] + 1e-6)
    sk = thermo.HarmonicThermo(f, d, T=T, verbose=False, skipfreq=True, eps=eps)
    t.close(sk.f, f[f > eps], 'eps')
    t.close(sk.dos, d[f > eps], 'eps dos')


# --- Gibbs --------------------------------------------------------------
def qha(case):
    r = rng(case, 4)
    nd = case['nd']
    if nd == 1:
        V = np.linspace(r.uniform(12, 16), r.uniform(20, 26), case['npt'])
        ax = V[:, None]**(1 / 3.)
        vf = lambda x: x[0]**3
    elif nd == 2:
        k = case['npt']
        a = np.linspace(2.5, 3.5, k)
        c = np.linspace(3.0, 4.0, k)
        ax = np.array([(x, y) for x in a for y in c])
        vf = lambda x: x[0]**2 * x[1]
    else:
        s = np.linspace(0.93, 1.07, case['npt'])
        b = r.uniform(2.2, 3.5, 3)
        ax = s[:, None] * b[None, :]
        vf = lambda x: x[0] * x[1] * x[2]
    V = np.array([vf(x) for x in ax])
    fr = np.linspace(-5 if case['neg'] else 2.0, 900, 120)
    Vm = V.mean()
    if nd == 2:
        # separable energy, minimum inside
        et = r.uniform(1.5, 3) * (ax[:, 0] - 3.0 - r.uniform(-.05, .05))**2 + r.uniform(1.5, 3) * (ax[:, 1] - 3.5)**2 + 0.3 * (ax[:, 0] - 3) * (ax[:, 1] - 3.5)
    else:
        x = V / Vm - 1 - r.uniform(-.05, .03)
        et = r.uniform(8, 25) * x**2 - r.uniform(2, 10) * x**3
    et = et + case['e0']
    w = r.uniform(40, 90)
    c0 = r.uniform(300, 550)
    g = r.uniform(0.2, 1.0)
    sc = 0.05 if nd == 2 else 0.01
    phdos = [np.array([fr, sc * np.exp(-(fr - c0 * (v / Vm)**-g)**2 / (2 * w * w))]).T for v in V]
    return ax, vf, V, et, phdos


GIB = dict(seed=seeds, nd=pick([1, 1, 2, 3]), npt=ints(7, 9), neg=bools, e0=pick([0.0, -300.0]), nT=ints(8, 14), P=pick([[0.0], [0.0, 2.0], [3.0, 0.0, 1.0], [-1.0, 1.0]]), area=pick([None, 3.0]))


def build(_case, perm=None, **over):
    case = _case
    ax, vf, V, et, ph = qha(case)
    T = np.linspace(5, 800, case['nT'])
    P = np.array(case['P'])
    area = case['area'] and (0.9 if case['nd'] != 2 else 3.0)
    if perm is not None:
        ax, et, ph = ax[perm], et[perm], [ph[i] for i in perm]
    kw = dict(T=T, P=P, etot=et, phdos=ph, axes_flat=ax[:, 0] if case['nd'] == 1 and case['seed'] % 2 else ax, volfunc_ax=vf, dosarea=area)
    if case['nd'] == 3:
        kw['case'] = '1d'
    kw.update(over)
    return thermo.Gibbs(**kw), ax, vf, V, et, ph, T, P, area


def pfit(x, y, deg=5):
    """independent polynomial fit of scaled data"""
    p = np.polynomial.Polynomial.fit(x, y, deg)
    return p


def pmin(p, x):
    rts = p.deriv().roots()
    rts = rts[np.abs(rts.imag) < 1e-9].real
    rts = rts[(rts > x.min()) & (rts < x.max())]
    rts = [q for q in rts if p.deriv(2)(q) > 0]
    return rts


def monos2(X, deg):
    return np.array([[x**i * y**j for i in range(deg + 1) for j in range(deg + 1)] for x, y in X])


@sub(D(**GIB), quick=60, thorough=1500, budget=(40, 400))
def gibbs_surface(case, t):
    gb, ax, vf, V, et, ph, T, P, area = build(case)
    nT, nP, N = len(T), len(P), len(V)
    pre = '/' + '-'.join('ax%i' % i for i in range(case['nd']))
    g = gb.calc_G(calc_all=True)
    t.nontrivial()
    t.close(g['/T/T'], T); t.close(g['/P/P'], P)
    t.close(g[pre + pre], ax, 'axes'); t.close(g[pre + '/V'], V, 'V', rtol=1e-12); t.close(g[pre + '/Etot'], et, 'Etot')
    ref_all = []
    for i in range(N):
        m = ph[i][:, 0] > 1.5 * np.finfo(float).eps
        f, d = ph[i][m, 0], ph[i][m, 1]
        if area:
            d = d * area / trap(d, f)
        ref_all.append(ref(f, d, T))
    ref_all = np.array(ref_all)     # (N, 4, nT)
    E, F, S, C = ref_all[:, 0], ref_all[:, 1], ref_all[:, 2], ref_all[:, 3]
    t.close(g[pre + '/T/Fvib'], F, 'Fvib', rtol=1e-6, atol=1e-9)
    t.close(g[pre + '/T/F'], et[:, None] + F, 'F', rtol=1e-9, atol=1e-7)
    t.close(g[pre + '/T/Svib'], S, 'Svib', rtol=1e-5, atol=1e-7)
    t.close(g[pre + '/T/Cv'], C, 'Cv', rtol=1e-5, atol=1e-8)
    # Evib: known finding (kb and eV mixed), anything else is a violation
    known = F + T * S
    if not np.allclose(g[pre + '/T/Evib'], known, rtol=1e-5, atol=1e-6):
        t.close(g[pre + '/T/Evib'], E, 'Evib', rtol=1e-5, atol=1e-7)
    G = et[None, None, :] + F.T[:, None, :] + V[None, None, :] * P[None, :, None] / GPA
    t.close(g['/T/P%s/G' % pre], G, 'G', rtol=1e-9, atol=1e-7)
    H = et[None, :] + V[None, :] * P[:, None] / GPA
    t.close(g['/P%s/H' % pre], H, 'H', rtol=1e-9, atol=1e-9)
    for surf, prfx, nm in ((g['/T/P%s/G' % pre], '/#opt/T/P/', 'G'), (g['/P%s/H' % pre], '/#opt/P/', 'H')):
        for idx in np.ndindex(surf.shape[:-1]):
            y = surf[idx]
            if case['nd'] != 2:
                p = pfit(V, y)
                mins = pmin(p, V)
                if len(mins) != 1 or (y.argmin() in (0, N - 1)):
                    t.label('minimum at border')
                    continue
                v0 = mins[0]
                t.label('1d minimum')
                t.close(g[prfx + 'V'][idx], v0, 'V at minimum of ' + nm, rtol=1e-6)
                t.close(g[prfx + nm][idx], p(v0), nm + ' at minimum', rtol=1e-9, atol=1e-7)
                t.close(g[prfx + 'B'][idx], v0 * p.deriv(2)(v0) * GPA, 'B', rtol=1e-4)
                for k in range(case['nd']):
                    t.close(g[prfx + 'ax%i' % k][idx], pfit(V, ax[:, k])(v0), 'ax', rtol=1e-7)
            else:
                sc = lambda X: np.array([(X[:, 0] - 3.0) / .5, (X[:, 1] - 3.5) / .5]).T
                y0, y1 = y.min(), np.ptp(y)
                co = np.linalg.lstsq(monos2(sc(ax), 5), (y - y0) / y1, rcond=None)[0]
                if np.linalg.matrix_rank(monos2(sc(ax), 5)) < 36:
                    continue
                if 0 in np.unravel_index(y.argmin(), (case['npt'],) * 2) or case['npt'] - 1 in np.unravel_index(y.argmin(), (case['npt'],) * 2):
                    t.label('minimum at border')
                    continue
                fun = lambda x: float(monos2(np.array([x]), 5) @ co)
                from scipy.optimize import minimize
                z = minimize(fun, sc(ax[y.argmin()][None])[0], method='Nelder-Mead', options=dict(xatol=1e-9, fatol=1e-15, maxiter=4000))
                x0 = np.array([3 + .5 * z.x[0], 3.5 + .5 * z.x[1]])
                got = np.array([g[prfx + 'ax0'][idx], g[prfx + 'ax1'][idx]])
                t.label('2d minimum')
                t.close(got, x0, 'axes at minimum of ' + nm, rtol=0, atol=3e-4)
                t.close(g[prfx + nm][idx], z.fun * y1 + y0, nm + ' at minimum', rtol=1e-8, atol=1e-6 * y1)
                t.close(g[prfx + 'V'][idx], vf(got), 'V', rtol=1e-10)
    if case['nd'] == 2:
        for k in ('/#opt/T/P/B', '/#opt/P/B', '/#opt/T/P/ax2', '/#opt/T/P/alpha_ax2'):
            t.ok(g[k] is None, k)
    if case['nd'] == 3 and case['seed'] % 2:
        g3 = build(case, **{'case': None})[0]
        f3 = g3.calc_F()
        t.close(f3[pre + '/T/F'], et[:, None] + F, 'F for three free axes', rtol=1e-9, atol=1e-7)
        with t.raises(msg='minimum on three free axes is not implemented'):
            g3.calc_G()
        with t.raises(msg='two axes wanted, three given'):
            build(case, **{'case': '2d'})[0].calc_G()
    if case['nd'] == 1:
        t.ok(g['/#opt/T/P/ax1'] is None and g['/#opt/T/P/alpha_ax1'] is None, 'unused axes are None')
    # derived quantities are derivatives of the same surface
    for name in ['V'] + ['ax%i' % i for i in range(case['nd'])]:
        for ip in range(nP):
            x = g['/#opt/T/P/' + name][:, ip]
            tck = interpolate.splrep(T, x, k=5)
            t.close(g['/#opt/T/P/alpha_' + name][:, ip], interpolate.splev(T, tck, der=1) / x, 'alpha ' + name, rtol=1e-5, atol=1e-10)
    for ip in range(nP):
        y = g['/#opt/T/P/G'][:, ip] * EV / KB
        want = -T * interpolate.splev(T, interpolate.splrep(T, y, k=5), der=2)
        t.close(g['/#opt/T/P/Cp'][:, ip], want, 'Cp', rtol=1e-4, atol=1e-5 + 1e-10 * np.abs(y).max())


@sub(D(**dict(GIB, nd=pick([1, 1, 3]))), quick=60, thorough=1000, budget=(30, 300))
def gibbs_metamorphic(case, t):
    gb, ax, vf, V, et, ph, T, P, area = build(case)
    t.nontrivial()
    pre = '/' + '-'.join('ax%i' % i for i in range(case['nd']))
    with t.unchanged(ax=ax, et=et, ph=ph, T=T, P=P):
        g = gb.calc_G()
    # F computed separately, with an additional contribution
    gb2 = build(case)[0]
    F = gb2.calc_F(calc_all=False)
    t.eq(sorted(k for k in F if '/T/F' in k), [pre + '/T/F', pre + '/T/Fvib'], 'keys of calc_F(calc_all=False)')
    F[pre + '/T/F'] = F[pre + '/T/F'] + 0.125
    g2 = gb2.calc_G(ret=F)
    t.close(g2['/T/P%s/G' % pre], g['/T/P%s/G' % pre] + 0.125, 'extra contribution', rtol=1e-12, atol=1e-12)
    t.close(g2['/#opt/T/P/V'], g['/#opt/T/P/V'], 'V unaffected', rtol=1e-5)
    # only G
    g3 = build(case)[0].calc_G(calc_all=False)
    t.ok(not any(k.startswith('/#opt') for k in g3), 'calc_all=False')
    t.close(g3['/T/P%s/G' % pre], g['/T/P%s/G' % pre], 'G', rtol=1e-12)
    # options reach the phonon part
    ph0 = [np.insert(p[p[:, 0] > 0], 0, [[0.0, 0.3]], axis=0) for p in ph]
    for opts in (dict(skipfreq=False, fixnan=True, nanfill=0.7), dict(skipfreq=True, eps=100.0), dict(skipfreq=False, fixnan=True, dosarea=2.5)):
        got = build(case, phdos=ph0, **dict(dict(dosarea=None), **opts))[0].calc_F()
        ha = thermo.HarmonicThermo(ph0[1][:, 0], ph0[1][:, 1], T=T, verbose=False, **opts)
        t.eq(got[pre + '/T/Fvib'][1], ha.fvib(), 'Fvib with %s' % opts)
        t.eq(got[pre + '/T/Cv'][1], ha.cv(), 'Cv with %s' % opts)
    # second call on the same object
    g4 = gb.calc_G()
    for k in g:
        t.eq(None if g4[k] is None else np.asarray(g4[k]), None if g[k] is None else np.asarray(g[k]), 'repeated call ' + k)
    # descending grid
    perm = np.arange(len(V))[::-1]
    g5 = build(case, perm=perm)[0].calc_G()
    t.close(g5['/T/P%s/G' % pre], g['/T/P%s/G' % pre][..., perm], 'permuted G', rtol=1e-12)
    for k in ('V', 'G', 'ax0'):
        t.close(g5['/#opt/T/P/' + k], g['/#opt/T/P/' + k], 'permuted opt ' + k, rtol=1e-5)
    # each temperature and pressure on its own
    iT, iP = int(rng(case, 8).integers(len(T))), int(rng(case, 9).integers(len(P)))
    sub_ = build(case, P=P[iP:iP + 1])[0].calc_G()
    t.close(sub_['/#opt/T/P/G'][iT, 0], g['/#opt/T/P/G'][iT, iP], 'one pressure', rtol=1e-12)
    t.close(sub_['/#opt/T/P/Cp'][:, 0], g['/#opt/T/P/Cp'][:, iP], 'one pressure Cp', rtol=1e-9, atol=1e-9)
    # user fit functions get the data and are used
    calls = []

    class Fit(num.PolyFit1D):
        def __init__(self, x, y, what, deg):
            calls.append(what)
            super().__init__(x, y, deg=deg, scale=True)
    gb6 = build(case)[0]
    for key, deg in (('1d-G', 4), ('1d-ax', 3), ('alpha', 4), ('C', 4)):
        gb6.set_fitfunc(key, lambda x, y, key=key, deg=deg: Fit(x, y, key, deg))
    g6 = gb6.calc_G()
    nT, nP = len(T), len(P)
    na = case['nd']
    t.eq(sorted(set(calls)), sorted(['1d-G', '1d-ax', 'alpha', 'C']), 'the fit functions are used')
    ip = iP
    p = np.polynomial.Polynomial.fit(T, g6['/#opt/T/P/V'][:, ip], 4)
    t.close(g6['/#opt/T/P/alpha_V'][:, ip], p.deriv()(T) / g6['/#opt/T/P/V'][:, ip], 'alpha with user fit', rtol=1e-5, atol=1e-9)
    p = np.polynomial.Polynomial.fit(T, g6['/#opt/T/P/G'][:, ip] * EV / KB, 4)
    t.close(g6['/#opt/T/P/Cp'][:, ip], -T * p.deriv(2)(T), 'Cp with user fit', rtol=1e-4, atol=1e-4)
    for k in ('phdos', 'etot'):
        with t.raises(msg='%s shorter than the axes' % k):
            build(case, **{k: (ph if k == 'phdos' else et)[:-1]})
    with t.raises(AssertionError, msg='unknown fitfunc key'):
        gb6.set_fitfunc('2d-ax', None)


@sub(D(seed=seeds, x=st.lists(floats(0.05, 15), min_size=1, max_size=6), nstep=pick([None, 60, 400]), zero=pick([None, 1e-3])), quick=100, thorough=2000)
def debye_einstein_expansion(case, t):
    x = np.array(case['x'])
    t.nontrivial()
    kw = {k: case[k] for k in ('nstep', 'zero') if case[k]}
    with t.unchanged(x=x):
        got = thermo.debye_func(x, **kw)
    want = np.array([3 * integrate.quad(lambda s: s**3 / np.expm1(s * q), 0, 1)[0] for q in x])
    t.close(got, want, 'debye function', rtol=0, atol=2e-3 * (100. / kw.get('nstep', 100))**2 + 1e-4)
    tt = np.linspace(kw.get('zero', 1e-8), 1, kw.get('nstep', 100))
    t.close(got, np.array([3 * trap(tt**3 / np.expm1(tt * q), tt) for q in x]), 'trapezoid value', rtol=1e-5, atol=1e-7)
    t.close(thermo.debye_func(float(x[0]), **kw), got[:1], 'scalar')
    t.close(thermo.einstein_func(x), np.exp(-x) / -np.expm1(-x), 'einstein', rtol=1e-10)
    x2 = np.array([20., 33., 60., 200., 600.])
    t.close(thermo.einstein_func(x2) * np.exp(x2), np.ones(5), 'einstein at large x', rtol=1e-8)
    r = rng(case)
    al, th, x0 = r.uniform(-1e-5, 1e-5), r.uniform(50, 1500), r.uniform(1, 9)
    T = th / x
    t.close(thermo.expansion(T, al, th, x0), x0 * (1 + al * th * thermo.debye_func(x)), 'expansion', rtol=1e-12)
    t.close(thermo.expansion(T, al, th, x0, thermo.einstein_func), x0 * (1 + al * th / np.expm1(x)), 'expansion einstein', rtol=1e-12)
    t.close(thermo.expansion(T, al, th), 1 + al * th * thermo.debye_func(x), 'default x0', rtol=1e-12)
    # high T: alpha
    T = th * np.array([50., 50.5])
    e = thermo.expansion(T, al, th, x0, thermo.einstein_func)
    t.close((e[1] - e[0]) / (T[1] - T[0]) / x0, al, 'high T slope', rtol=1e-2, atol=1e-12)


def probe_evib():
    f = np.linspace(10, 500, 50)
    V = np.linspace(12, 20, 7)
    ph = [np.array([f, np.exp(-(f - 200)**2 / 5000.)]).T for _ in V]
    g = thermo.Gibbs(T=np.linspace(50, 500, 8), P=np.array([0.]), etot=(V - 16)**2, phdos=ph, axes_flat=V**(1 / 3.), volfunc_ax=lambda x: x[0]**3)
    F = g.calc_F()
    E = thermo.HarmonicThermo(f, ph[0][:, 1], T=g.T, verbose=False).evib()
    return not np.allclose(F['/ax0/T/Evib'][0], E, rtol=1e-3)


@sub(D(seed=seeds, n=ints(10, 40)), quick=40, thorough=300)
def documented_defaults(case, t):
    r = rng(case, 9)
    f = np.linspace(10, 900, case['n'])
    dos = r.uniform(0, 1, case['n'])
    T = np.array([5.0, 100, 800])
    t.nontrivial()
    val = lambda h: [h.evib(), h.cv(), h.fvib(), h.svib()]
    mk = lambda fr, **kw: val(thermo.HarmonicThermo(fr, dos, T=T, **dict(dict(verbose=False), **kw)))
    a = mk(f)
    from scipy.integrate import trapezoid
    for k, v in dict(skipfreq=False, fixnan=False, nanfill=0.0, dosarea=None, integrator=trapezoid, temp=None).items():
        t.eq(a, mk(f, **{k: v}), 'HarmonicThermo %s=%r is the default' % (k, v))
    h = thermo.HarmonicThermo(f, dos, T=T, verbose=False)
    for m in 'evib cv fvib svib'.split():
        t.independent(m, getattr(h, m))
        t.independent(m, getattr(h, m), T + 3)
    t.eq(a, val(h), 'values of the instance after results were overwritten')
    f0 = f.copy()
    f0[0] = 0.0
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        t.eq(mk(f0, fixnan=True), mk(f0, fixnan=True, nanfill=0.0), 'NaN are replaced by 0')
    x = float(r.uniform(.05, 10))
    t.defaults(thermo.debye_func, (x,), nstep=100, zero=1e-8)
    t.defaults(thermo.expansion, (T, 1e-5, 300.0), x0=1.0, func=thermo.debye_func)
