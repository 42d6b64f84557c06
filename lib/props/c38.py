from pv import *
import warnings
import matplotlib
matplotlib.use('Agg')
from pwtools import kpath, mpl, num, pwscf

RULE = ('random vertices (also repeated ones, any dimension), numbers of points and reciprocal cells; paths against an own construction and geometric invariants; plots are inspected through the matplotlib objects; '
        'non-trivial if there are at least three vertices')


def cum(x):
    d = np.linalg.norm(np.diff(x, axis=0), axis=1)
    return np.append(np.linalg.norm(x[0]), np.linalg.norm(x[0]) + np.add.accumulate(d))


def vertices(r, n, m):
    v = r.uniform(-1, 1, (n, m)) * (r.random((n, m)) < .8) * 10.0**r.integers(-2, 3)
    if n > 2 and r.random() < .2:
        v[1] = v[2] if r.random() < .5 else v[0]
    return v


@sub(D(seed=seeds, n=ints(2, 8), m=ints(1, 4), N=sizes(1, 30, 120, 600), order=pick('CF')), quick=200, thorough=4000)
def path(case, t):
    r = rng(case)
    n, m, N = case['n'], case['m'], case['N']
    t.nontrivial(n > 2)
    v = np.array(vertices(r, n, m), order=case['order'])
    with t.unchanged(v=v):
        p = kpath.kpath(v, N=N)
    t.shape(p, (N * (n - 1) + 1, m), 'path')
    sc = np.abs(v).max() + 1e-300
    exp = np.vstack([v[i] + (v[i + 1] - v[i]) * j / N for i in range(n - 1) for j in range(N)] + [v[-1]])
    t.close(p, exp, 'points of the path', rtol=1e-10, atol=1e-12 * sc)
    t.ok(same(p[-1], v[-1]), 'last vertex')
    t.close(p[::N], v, 'vertices at multiples of N', rtol=1e-13, atol=1e-13 * sc)
    t.independent('kpath', kpath.kpath, v, N=N)
    t.independent('get_path_norm', kpath.get_path_norm, v)
    if N == 10:
        t.ok(same(kpath.kpath(v), p), 'N=10 is the default')
    with t.unchanged(p=p):
        x = kpath.get_path_norm(p)
    t.close(x, cum(p), 'path coordinate', rtol=1e-10, atol=1e-12 * sc)
    t.ok((np.diff(x) >= 0).all(), 'path coordinate does not decrease')
    t.close(x[::N], kpath.get_path_norm(v), 'path coordinate at the vertices', rtol=1e-9, atol=1e-10 * sc)
    t.close(np.diff(x).reshape(n - 1, N), np.repeat(np.linalg.norm(np.diff(v, axis=0), axis=1)[:, None] / N, N, axis=1), 'equidistant on every edge', rtol=1e-7, atol=1e-10 * sc)
    # linear in the basis: fractional and Cartesian
    B = r.normal(size=(m, m)) + 2 * np.eye(m)
    t.close(kpath.kpath(v @ B, N=N), p @ B, 'fractional and Cartesian path', rtol=1e-9, atol=1e-10 * sc)
    t.close(kpath.kpath(v[::-1], N=N), p[::-1], 'reversed path', rtol=1e-9, atol=1e-10 * sc)
    k = int(r.integers(1, n))
    t.close(kpath.kpath(v[:k + 1], N=N), p[:k * N + 1], 'part of the path', rtol=1e-9, atol=1e-10 * sc)
    vi = r.integers(-3, 4, (n, m))
    t.close(kpath.kpath(vi, N=N), kpath.kpath(vi.astype(float), N=N), 'integer vertices', rtol=1e-13)
    t.close(kpath.get_path_norm(vi), cum(vi), 'path coordinate of integer points', rtol=1e-12)
    # vlinspace
    a, b = v[0], v[1]
    q = int(r.integers(2, 9))
    with t.unchanged(a=a, b=b):
        t.close(num.vlinspace(a, b, q), np.array([a + (b - a) * i / (q - 1) for i in range(q)]), 'vlinspace', rtol=1e-12, atol=1e-12 * sc)
        t.close(num.vlinspace(a, b, q, endpoint=False), np.array([a + (b - a) * i / q for i in range(q)]), 'vlinspace without end point', rtol=1e-12, atol=1e-12 * sc)
        t.close(num.vlinspace(a, b, 1), a[None], 'one point', rtol=0)


@sub(D(seed=seeds, n=ints(2, 6), nb=ints(1, 6), nks=ints(2, 40), ax=bools, coords=pick([None, 'cart', 'frac']), symbols=bools, spp=bools, dos=bools, ylim=bools, frac=bools), quick=60, thorough=600, budget=(60, 400))
def plot(case, t):
    r = rng(case)
    n = case['n']
    t.nontrivial(case['spp'])
    ks = vertices(r, n, 3)
    kf = vertices(r, n, 3) if case['frac'] or case['coords'] == 'frac' else None
    sym = ['P%d' % i for i in r.integers(0, 99, n)] if case['symbols'] or case['coords'] is not None else None
    nks = case['nks']
    x = np.sort(r.uniform(0, 5, nks)) if r.random() < .5 else kpath.get_path_norm(kpath.kpath(ks, N=5))
    f = r.normal(size=(len(x), case['nb'])) * 300
    kw = {}
    spp = None
    if case['spp']:
        a = dict(ks=ks, symbols=sym)
        if kf is not None:
            a['ks_frac'] = kf
        if sym is None and r.random() < .5:
            del a['symbols']
        with t.unchanged(ks=ks, kf=kf, sym=sym):
            spp = kpath.SpecialPointsPath(**a)
        t.close(spp.path_norm, cum(ks), 'SpecialPointsPath.path_norm', rtol=1e-10, atol=1e-12)
        t.ok(spp.symbols == sym, 'symbols')
        kw['special_points_path'] = spp
        kw['show_coords'] = case['coords']
    dos = np.column_stack([np.linspace(f.min(), f.max(), 20), r.random(20)])
    if case['dos']:
        kw['dos'] = dos
    if case['ylim']:
        kw['ylim'] = (float(f.min() - 77), float(f.max() + 33))[::-1 if case['seed'] % 4 == 3 else 1]
    if case['ax']:
        fig0, ax0 = mpl.fig_ax()
        kw['ax'] = ax0
    col = ['r', 'g', 'k'][int(r.integers(3))]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            with t.unchanged(x=x, f=f, dos=dos, ks=ks, kf=kf):
                fig, ax, axd = kpath.plot_dis(x, f, color=col, **kw)
            if case['ax']:
                t.ok(ax is ax0 and fig is fig0, 'the given axis is used')
            t.ok(ax.figure is fig, 'figure of the axis')
            L = [l for l in ax.get_lines()]
            t.eq(len(L), case['nb'], 'number of bands drawn')
            for i, l in enumerate(L):
                t.ok(same(np.asarray(l.get_xdata(), float), x), 'x data of band %d' % i)
                t.ok(same(np.asarray(l.get_ydata(), float), f[:, i]), 'y data of band %d' % i)
                t.eq(l.get_color(), col, 'keywords go to plot()')
            if case['dos']:
                t.ok(axd is not None, 'axis of the DOS')
                l, = axd.get_lines()
                t.ok(same(np.asarray(l.get_xdata(), float), dos[:, 1]) and same(np.asarray(l.get_ydata(), float), dos[:, 0]), 'DOS is drawn sideways')
                t.close(axd.get_ylim(), ax.get_ylim(), 'shared frequency axis', rtol=1e-12)
            else:
                t.ok(axd is None, 'no DOS, no axis')
            if case['ylim']:
                t.close(ax.get_ylim(), kw['ylim'], 'frequency axis limits', rtol=1e-12)
            if spp is not None:
                t.close(ax.get_xticks(), spp.path_norm, 'ticks at the special points', rtol=1e-12)
                t.close(ax.get_xlim(), (x[0], x[-1]), 'limits of the path axis', rtol=1e-12)
                lab = [z.get_text() for z in ax.get_xticklabels()]
                for i, z in enumerate(lab):
                    if (np.abs(spp.path_norm - spp.path_norm[i]) < 1e-9).sum() > 1:
                        continue                       # matplotlib has one label per position
                    t.ok(z.split('\n')[0] == (sym[i] if sym else ''), 'label %d is %r' % (i, z))
                    if case['coords']:
                        w = ks if case['coords'] == 'cart' else kf
                        t.eq(z.split('\n')[1], '[%s]' % ','.join('%.2g' % y for y in w[i]), 'coordinates in label %d' % i)
                seg = [s for c in ax.collections for s in c.get_segments()]
                t.eq(len(seg), n, 'vertical lines')
                t.close(sorted(s[0, 0] for s in seg), np.sort(spp.path_norm), 'vertical lines at the special points', rtol=1e-10)
                yl = sorted(ax.get_ylim())
                lo, hi = sorted(kw.get('ylim', (f.min(), f.max())))
                t.ok(all(s[:, 1].min() <= lo + 1e-9 * abs(lo) and s[:, 1].max() >= hi - 1e-9 * abs(hi) for s in seg), 'the lines do not reach from %g to %g' % (lo, hi))
                t.ok(all(s[:, 1].min() >= yl[0] - (yl[1] - yl[0]) and s[:, 1].max() <= yl[1] + (yl[1] - yl[0]) for s in seg), 'lines far outside the plot')
        finally:
            mpl.plt.close('all')
    if case['spp'] and sym is not None:
        with t.raises(Exception, msg='illegal show_coords'):
            try:
                kpath.plot_dis(x, f, spp, show_coords='foo')
            finally:
                mpl.plt.close('all')


@sub(D(seed=seeds, n=ints(2, 5), N=ints(1, 8), nat=ints(1, 4)), quick=60, thorough=600)
def through_file(case, t):
    """path written to a matdyn.x frequency file and read back: same path coordinate"""
    r = rng(case)
    t.nontrivial(case['n'] > 2)
    p = np.round(kpath.kpath(vertices(r, case['n'], 3) % 3, N=case['N']), 6)
    f = np.round(r.normal(size=(len(p), 3 * case['nat'])) * 100, 4)
    with tmpdir() as d:
        fn = os.path.join(d, 'x.freq')
        with open(fn, 'w') as h:
            h.write(' &plot nbnd=%4d, nks=%4d /\n' % (f.shape[1], len(p)))
            for a, b in zip(p, f):
                h.write('          %10.6f%10.6f%10.6f\n' % tuple(a))
                for j in range(0, len(b), 6):
                    h.write(''.join('%10.4f' % z for z in b[j:j + 6]) + '\n')
        K, F = pwscf.read_matdyn_freq(fn)
    t.close(kpath.get_path_norm(K), cum(p), 'path coordinate', rtol=1e-10, atol=1e-12)
    t.close(F, f, 'frequencies', rtol=0)
