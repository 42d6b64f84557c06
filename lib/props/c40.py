from pv import *
import itertools
import warnings
import matplotlib
matplotlib.use('Agg')
from pwtools import mpl, num

RULE = ('random 2d grids (any axis order, sizes 1..8, C/F order, integer or float), all forms of x-y and z input, histories of update() and copy(); plots are inspected through the matplotlib objects; '
        'non-trivial if the grid has at least two points along both axes, or if several axes/lines are involved')

FORMS = ['xy', 'xxyy', 'XY2', 'XY']


def axis_vals(r, n, kind):
    if kind == 'int':
        v = r.permutation(np.arange(-9, 10))[:n]
    elif kind == 'desc':
        v = np.linspace(3, -2, n) if n > 1 else np.array([1.5])
    elif kind == 'close':
        v = 1 + r.permutation(n) * 4e-16 * 10
    else:
        v = r.permutation(np.unique(r.normal(size=n * 3)))[:n] * 10.0**r.integers(-6, 7)
    return v


def forms(x, y, z):
    """All forms, by explicit loops."""
    nx, ny = len(x), len(y)
    xx = np.empty(nx * ny, x.dtype)
    yy = np.empty(nx * ny, y.dtype)
    zz = np.empty(nx * ny)
    X = np.empty((nx, ny), x.dtype)
    Y = np.empty((nx, ny), y.dtype)
    Z = np.empty((nx, ny))
    XY = np.empty((nx * ny, 2), np.result_type(x, y))
    for i in range(nx):
        for j in range(ny):
            k = i * ny + j
            xx[k] = X[i, j] = XY[k, 0] = x[i]
            yy[k] = Y[i, j] = XY[k, 1] = y[j]
            zz[k] = Z[i, j] = z[i][j]
    return dict(x=x, y=y, xx=xx, yy=yy, zz=zz, X=X, Y=Y, Z=Z, XY=XY)


def given(f, form, zform, order):
    keys = dict(xy=['x', 'y'], xxyy=['xx', 'yy'], XY2=['X', 'Y'], XY=['XY'])[form]
    d = {k: np.array(f[k], order=order) for k in keys}
    if zform:
        d[zform] = np.array(f[zform], order=order)
    return d


def check(t, d, f, hasz, msg):
    t.eq((d.nx, d.ny), f['X'].shape, msg + ': nx, ny')
    for k in ['x', 'y', 'xx', 'yy', 'X', 'Y', 'XY']:
        v = getattr(d, k)
        t.ok(v is not None and v.shape == f[k].shape and (v == f[k]).all(), '%s: %s is %r instead of %r' % (msg, k, v, f[k]))
    for k in ['zz', 'Z']:
        v = getattr(d, k)
        if hasz:
            t.ok(v is not None and v.shape == f[k].shape and (v == f[k]).all(), '%s: %s is %r instead of %r' % (msg, k, v, f[k]))
        else:
            t.ok(v is None, '%s: no %s' % (msg, k))


@sub(D(seed=seeds, nx=ints(1, 8), ny=ints(1, 8), kx=pick(['int', 'desc', 'close', 'any']), ky=pick(['int', 'desc', 'close', 'any']),
       form=pick(FORMS), zform=pick([None, 'zz', 'Z']), order=pick('CF')), quick=300, thorough=5000)
def data2d(case, t):
    r = rng(case)
    nx, ny = case['nx'], case['ny']
    x, y = axis_vals(r, nx, case['kx']), axis_vals(r, ny, case['ky'])
    nx, ny = len(x), len(y)
    t.nontrivial(min(nx, ny) > 1)
    f = forms(x, y, r.normal(size=(nx, ny)))
    X, Y = num.meshgridt(x, y)
    t.ok(same(np.array(X), f['X']) and same(np.array(Y), f['Y']), 'meshgridt')
    a = given(f, case['form'], case['zform'], case['order'])
    with t.unchanged(**a):
        d = mpl.Data2D(**a)
    check(t, d, f, case['zform'] is not None, 'constructor(%s)' % case['form'])
    # the points and values belong together, whatever form is used next
    for form in FORMS:
        e = mpl.Data2D(**given({k: getattr(d, k) for k in f}, form, case['zform'], 'C'))
        check(t, e, f, case['zform'] is not None, 'form %s again' % form)
    # copies
    with t.unchanged(**a):
        c = d.copy()
        check(t, c, f, case['zform'] is not None, 'copy')
        for k in d.attr_lst:
            if getattr(c, k) is not None:
                for l in d.attr_lst:
                    if getattr(d, l) is not None:
                        t.ok(not np.shares_memory(getattr(c, k), getattr(d, l)), 'copy shares memory: %s, %s' % (k, l))
    for k in c.attr_lst:
        if getattr(c, k) is not None and getattr(c, k).flags.writeable:
            getattr(c, k)[...] = 7
    check(t, d, f, case['zform'] is not None, 'after changing the copy')
    with t.raises(Exception, msg='x alone is not enough'):
        mpl.Data2D(**{'x': x, 'Z': f['Z']})
    if hasattr(mpl.Data2D, '_unique'):
        u = mpl.Data2D._unique(np.concatenate([x, x[::-1]]))
        t.ok(same(u, x), '_unique keeps the order')


@sub(D(seed=seeds, steps=st.lists(st.tuples(st.sampled_from(FORMS + ['none', 'x', 'y', 'bad', 'copy']), st.sampled_from([None, 'zz', 'Z'])), min_size=1, max_size=6), form=pick(FORMS), zform=pick([None, 'zz', 'Z'])),
     quick=200, thorough=4000)
def update(case, t):
    r = rng(case)
    nx, ny = r.integers(1, 6, 2)

    def new():
        return forms(axis_vals(r, nx, 'any'), axis_vals(r, ny, 'int'), r.normal(size=(nx, ny)))
    cur = new()
    hasz = case['zform'] is not None
    d = mpl.Data2D(**given(cur, case['form'], case['zform'], 'C'))
    t.nontrivial(min(nx, ny) > 1 and len(case['steps']) > 1)
    old = []
    for form, zform in case['steps']:
        if form == 'copy':
            old.append((d, cur, hasz))
            d = d.copy()
            continue
        if form == 'bad':
            with t.raises(AssertionError, msg='unknown name'):
                d.update(x=np.zeros(nx), foo=1)
            check(t, d, cur, hasz, 'after a refused update')
            continue
        f = new()
        kw = {}
        if form in FORMS:
            kw = given(f, form, None, 'C')
            cur = forms(f['x'], f['y'], cur['Z'])
        elif form in 'xy' and form:
            kw = {form: f[form].copy()}
            cur = forms(f['x'] if form == 'x' else cur['x'], f['y'] if form == 'y' else cur['y'], cur['Z'])
        if zform:
            kw[zform] = f[zform].copy()
            hasz = True
            cur = forms(cur['x'], cur['y'], f['Z'])
        items = list(kw.items())
        kw = dict(items[i] for i in r.permutation(len(items)))
        with t.unchanged(**kw):
            d.update(**kw)
        check(t, d, cur, hasz, 'update(%s)' % ','.join(kw))
    for o in old:
        check(t, *o, 'original of a copy')


@sub(D(seed=seeds, n=ints(2, 30)), quick=20, thorough=100)
def testdata(case, t):
    d = mpl.get_2d_testdata(case['n'])
    t.nontrivial(True)
    x = np.linspace(-5, 5, case['n'])
    check(t, d, forms(x, x, [[np.sin(a) + np.cos(b) for b in x] for a in x]), True, 'get_2d_testdata')
    t.eq(mpl.get_2d_testdata().nx, 20, 'default size')


@sub(D(seed=seeds, n=sizes(1, 40, 130)), quick=60, thorough=500)
def colors(case, t):
    n = case['n']
    t.nontrivial(n > 2)
    z = [mpl.smooth_color(i, n) for i in range(n)]
    t.eq(z[0], 0.0, 'first')
    if n > 1:
        t.eq(z[-1], 1.0, 'last')
        t.close(np.diff(z), np.ones(n - 1) / (n - 1), 'equal steps', rtol=1e-12)
    t.eq(mpl.smooth_color_func(n, lambda v: (v, 0, 1 - v)), [(v, 0, 1 - v) for v in z], 'smooth_color_func')
    C, M, L = mpl.colors, mpl.markers, mpl.linestyles
    t.eq((C, M, L), (['b', 'g', 'r', 'c', 'm', 'y', 'k'], ['o', 'v', '^', '<', '>', 's', 'p', '*', 'h', 'H', '+', 'x', 'D'], ['-', '--', ':', '-.']), 'basic lists')
    for name, a, b in [('colors_markers', C, M), ('colors_linestyles', C, L), ('markers_colors', M, C), ('linestyles_colors', L, C)]:
        exp = [p + q for p in a for q in b]
        t.eq(list(getattr(mpl, name)), exp, name)
        cyc = getattr(mpl, 'cycle_' + name)
        t.ok(cyc is getattr(mpl, {'colors_markers': 'ccm', 'colors_linestyles': 'ccl', 'markers_colors': 'cmc', 'linestyles_colors': 'clc'}[name]), 'short name')
        # endless, in the order of the list, wherever it stands now
        got = [next(cyc) for _ in range(len(exp) + n)]
        i = exp.index(got[0])
        t.eq(got, [exp[(i + k) % len(exp)] for k in range(len(got))], 'cycle_' + name)
    for name, exp in [('colors', C), ('markers', M)]:
        cyc = getattr(mpl, 'cycle_' + name)
        got = [next(cyc) for _ in range(len(exp) + n)]
        i = exp.index(got[0])
        t.eq(got, [exp[(i + k) % len(exp)] for k in range(len(got))], 'cycle_' + name)


@sub(D(seed=seeds, n=ints(1, 4), twin=bools, names=ints(1, 4), proj=pick(['2d', '3d'])), quick=25, thorough=300, budget=(60, 300))
def plots(case, t):
    import matplotlib.pyplot as plt
    r = rng(case)
    t.nontrivial(case['n'] > 1)
    try:
        dpi = int(r.integers(20, 200))
        names = list(r.permutation(['etot', 'b', 3, 'x y', 'a'])[:case['names']])
        dct = mpl.prepare_plots(names, projection=case['proj'], dpi=dpi)
        t.eq(list(dct), names, 'names and order of prepare_plots')
        figs = [p.fig for p in dct.values()]
        t.eq(len(set(map(id, figs))), len(names), 'one figure for each name')
        for p in dct.values():
            t.ok(isinstance(p, mpl.Plot) and p.ax.figure is p.fig and p.fig.dpi == dpi, 'Plot')
            t.eq(hasattr(p.ax, 'set_zlim'), case['proj'] == '3d', 'projection')
        with t.raises(AssertionError, msg='unknown projection'):
            mpl.prepare_plots(names, projection='4d')
        # Plot with several axes
        p = mpl.Plot(projection=case['proj'], dpi=dpi)
        t.eq(hasattr(p.ax, 'set_zlim'), case['proj'] == '3d', 'projection')
        with t.raises(Exception, msg='unknown projection'):
            mpl.Plot(projection='1d')
        with t.raises(Exception, msg='figure only'):
            mpl.Plot(fig=p.fig)
        with t.raises(Exception, msg='axis only'):
            mpl.Plot(ax=p.ax)
        q = mpl.Plot(p.fig, p.ax)
        t.ok(q.fig is p.fig and q.ax is p.ax, 'given figure and axis')
        p = mpl.Plot(dpi=dpi)
        exp = {}
        for k in range(case['n']):
            an = 'ax' if k == 0 else 'ax%d' % (k + 1)
            if k:
                setattr(p, an, p.ax.twinx() if case['twin'] else p.ax.twiny())
            ax = getattr(p, an)
            exp[an] = []
            for j in range(int(r.integers(0, 4))):
                lab = 'l%d%d' % (k, j) if r.random() < .8 else '_nolegend%d' % j
                if r.random() < .8:
                    l, = ax.plot(r.random(4), label=lab)
                else:
                    l = ax.bar([1, 2], r.random(2), label=lab)
                if lab[0] != '_':
                    exp[an].append((l, lab))
        use = [a for a in r.permutation(list(exp))][:int(r.integers(1, len(exp) + 1))]
        # matplotlib sorts the entries of one axis: lines first, then containers
        flat = []
        for a in use:
            h, l = getattr(p, a).get_legend_handles_labels()
            t.eq(sorted(l), sorted(x[1] for x in exp[a]), 'own bookkeeping')
            flat += list(zip(h, l))
        lines, labels = p.collect_legends(use)
        lines, labels = list(lines), list(labels)
        t.eq(labels, [l for _, l in flat], 'labels of all axes')
        t.ok(len(lines) == len(flat) and all(a is b for a, (b, _) in zip(lines, flat)), 'lines of all axes')
        for a in use:
            for l, lab in exp[a]:
                t.ok(any(x is l and y == lab for x, y in zip(lines, labels)), 'line and its label')
        two = mpl.collect_legends(*[getattr(p, a) for a in use])
        for _ in range(2):
            t.eq([list(two[1]), len(list(two[0]))], [labels, len(labels)], 'can be used more than once')
        lax = list(exp)[int(r.integers(len(exp)))]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            leg = p.legend(use, legaxname=lax, loc='upper left', title='T')
            t.ok(leg.axes is getattr(p, lax) and getattr(p, lax).get_legend() is leg, 'axis which gets the legend')
            t.eq([x.get_text() for x in leg.get_texts()], labels, 'entries of the legend')
            t.eq(leg.get_title().get_text(), 'T', 'keywords go to legend()')
            leg = p.legend(legaxname=lax)
            t.eq([x.get_text() for x in leg.get_texts()], list(getattr(p, lax).get_legend_handles_labels()[1]), 'legend of one axis')
            ne = int(r.integers(0, 4))
            ext = list(r.permutation(['png', 'pdf', 'svg'])[:ne])
            with tmpdir() as dd:
                base = os.path.join(dd, 'a.b')
                p.savefig(base, ext=ext)
                t.eq(sorted(os.listdir(dd)), sorted('a.b.' + e for e in ext), 'files of savefig')
                for e in ext:
                    b = open(base + '.' + e, 'rb').read()
                    t.ok(b[:4] == {'png': b'\x89PNG', 'pdf': b'%PDF', 'svg': b'<?xm'}[e], 'format of the file')
                p.savefig(os.path.join(dd, 'd'), dpi=10)
                t.ok(os.path.exists(os.path.join(dd, 'd.png')), 'png is the default')
    finally:
        plt.close('all')


@sub(D(seed=seeds, nx=ints(2, 6), ny=ints(1, 5), x2=bools, z2=bools, axis=pick(['x', 'y', 'both']), loc=pick([None, 'left', 'right', 'top', 'bottom']), inv=pick([None, 'left', 'right', 'top', 'bottom'])),
     quick=30, thorough=400, budget=(60, 300))
def axes(case, t):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    r = rng(case)
    nx, ny = case['nx'], case['ny']
    t.nontrivial(ny > 1)
    try:
        x = r.normal(size=(nx, ny) if case['x2'] else nx)
        z = r.normal(size=(nx, ny) if case['z2'] else nx)
        y = r.normal(size=ny)
        clean = bool(r.integers(2))
        fig, ax = mpl.fig_ax3d(clean=clean, dpi=50)
        t.ok(ax.figure is fig and fig.dpi == 50, 'figure')
        if clean:
            for a in (ax.xaxis, ax.yaxis, ax.zaxis):
                t.close(a.pane.get_facecolor(), (1, 1, 1, 1), 'white pane', rtol=0)
            t.ok(not ax._draw_grid, 'no grid')
        else:
            t.ok(ax._draw_grid, 'grid')
        with t.unchanged(x=x, y=y, z=z):
            ret = mpl.plotlines3d(ax, x, y, z, 'r--', lw=3)
        t.ok(ret is ax, 'returns the axis')
        L = ax.get_lines()
        t.eq(len(L), ny, 'one curve for each y')
        for j, l in enumerate(L):
            a, b, c = l.get_data_3d()
            t.ok(same(np.asarray(a), x[:, j] if case['x2'] else x), 'x of curve %d' % j)
            t.ok((np.asarray(b) == y[j]).all() and len(b) == nx, 'y of curve %d' % j)
            t.ok(same(np.asarray(c), z[:, j] if case['z2'] else z), 'z of curve %d' % j)
            t.eq((l.get_color(), l.get_linestyle(), l.get_linewidth()), ('r', '--', 3), 'style')
        with t.raises(AssertionError, msg='wrong number of curves'):
            mpl.plotlines3d(ax, x, np.arange(ny + 1.0), np.zeros((nx, ny)))
        # color_ax
        fig, ax = mpl.fig_ax()
        if case['seed'] % 2:
            ax.minorticks_on()
        k = dict(axis=case['axis'], spine_loc=case['loc'], spine_invisible=case['inv'])
        black = to_rgba('k')
        before = {a: to_rgba(getattr(ax, a + 'axis').label.get_color()) for a in 'xy'}
        mpl.color_ax(ax, 'tab:red', **k)
        red = to_rgba('tab:red')
        for a in 'xy':
            on = case['axis'] in (a, 'both')
            A = getattr(ax, a + 'axis')
            t.eq(to_rgba(A.label.get_color()), red if on else before[a], 'label of the %s axis' % a)
            for tick in A.get_major_ticks() + A.get_minor_ticks():
                t.eq(to_rgba(tick.label1.get_color()), red if on else black, 'tick labels of the %s axis' % a)
                t.eq(to_rgba(tick.tick1line.get_color()), red if on else black, 'ticks of the %s axis' % a)
        for s in ['left', 'right', 'top', 'bottom']:
            exp = to_rgba('none') if s == case['inv'] else (red if s == case['loc'] else black)
            t.close(ax.spines[s].get_edgecolor(), exp, 'spine ' + s, rtol=0)
    finally:
        plt.close('all')


@sub(D(seed=seeds, n=ints(1, 5)), quick=15, thorough=150, budget=(60, 300))
def newaxis(case, t):
    import matplotlib.pyplot as plt
    r = rng(case)
    t.nontrivial(case['n'] > 1)
    try:
        num_ = int(r.integers(1, 99)) if r.random() < .5 else None
        fig, host = mpl.make_axes_grid_fig(num_)
        t.ok(host.figure is fig and host in fig.axes, 'host axis')
        if num_ is not None:
            t.eq(fig.number, num_, 'number of the figure')
        seen = []
        for i in range(case['n']):
            loc = ['left', 'right', 'top', 'bottom'][int(r.integers(4))]
            ws = round(float(r.uniform(0, .05)), 3)
            off = int(r.integers(0, 60))
            ticks = sorted(set(r.integers(-9, 9, 4).tolist())) if r.random() < .5 else None
            sx, sy = bool(r.integers(2)), bool(r.integers(2))
            kw = dict(sharex=sx, sharey=sy) if ticks is None else {}
            b = host.get_position()
            pos = dict(left=b.x0, right=b.x1, bottom=b.y0, top=b.y1)
            with t.unchanged(ticks=ticks):
                f, h, par = mpl.new_axis(fig, host, off=off, loc=loc, ticks=ticks, wsadd=ws, label='lab%d' % i, **kw)
            t.ok(f is fig and h is host, 'figure and host axis are returned')
            t.ok(par in host.parasites and all(par is not s for s in seen), 'a new parasite axis')
            seen.append(par)
            t.eq(len(host.parasites), len(seen), 'number of parasite axes')
            t.eq(par.get_xlabel() if loc in ('top', 'bottom') else par.get_ylabel(), 'lab%d' % i, 'label')
            t.ok(loc + '2' in par.axis.keys(), 'name of the new axis line')
            for l in ['left', 'right', 'top', 'bottom']:
                t.ok(not par.axis[l].get_visible(), 'lines of the parasite axis are hidden')
            t.ok(par.axis[loc + '2'].get_visible(), 'the new line is visible')
            if ticks is not None:
                t.close(par.axis[loc + '2'].axis.get_ticklocs(), ticks, 'ticks', rtol=0)
            if kw:
                t.eq(par.get_shared_x_axes().joined(par, host), sx, 'sharex')
                t.eq(par.get_shared_y_axes().joined(par, host), sy, 'sharey')
            sp = getattr(fig.subplotpars, loc)
            t.close(sp, pos[loc] + (-ws if loc in ('top', 'right') else ws), 'white space', rtol=0, atol=2e-6)
            if i == case['n'] - 1:
                fig.canvas.draw()
                ln = par.axis[loc + '2'].line
                v = ln.get_transform().transform(ln.get_path().vertices)
                e = dict(zip(('left', 'bottom', 'right', 'top'), host.bbox.extents))
                k = 1 if loc in ('top', 'bottom') else 0
                t.close(v[:, k], np.full(len(v), e[loc] + (off if loc in ('top', 'right') else -off) * fig.dpi / 72), 'place of the new line', rtol=0, atol=.1)
            b2 = host.get_position()
            for l, v in dict(left=b2.x0, right=b2.x1, bottom=b2.y0, top=b2.y1).items():
                if l != loc:
                    t.close(v, pos[l], 'other sides stay', rtol=0, atol=2e-6)
    finally:
        plt.close('all')


@sub(D(seed=seeds), quick=12, thorough=100, budget=(60, 200))
def documented_defaults(case, t):
    import matplotlib.pyplot as plt
    r = rng(case, 9)
    t.nontrivial()
    hexes = lambda ax: {s: list(ax.spines[s].get_edgecolor()) for s in ('left', 'right', 'top', 'bottom')}

    def color(**kw):
        fig, ax = mpl.fig_ax()
        mpl.color_ax(ax, 'tab:red', **kw)
        return [hexes(ax), ax.xaxis.label.get_color(), ax.yaxis.label.get_color(), str(ax.xaxis.get_major_ticks()[0].label1.get_color()), str(ax.yaxis.get_major_ticks()[0].label1.get_color())]

    def free(**kw):
        fig, host = mpl.make_axes_grid_fig()
        f, h, par = mpl.new_axis(fig, host, **kw)
        fig.canvas.draw()
        names = sorted(k for k in par.axis.keys() if k[-1] == '2')
        b = host.get_position()
        box = [round(float(x), 6) for x in par.axis[names[0]].get_tightbbox(fig.canvas.get_renderer()).bounds]
        share = [h.get_shared_x_axes().joined(h, par), h.get_shared_y_axes().joined(h, par)]
        return [names, [round(float(x), 9) for x in (b.x0, b.x1, b.y0, b.y1)], par.get_xlabel(), par.get_ylabel(), box, [bool(x) for x in share]]

    def plots(**kw):
        return {k: type(p.ax).__name__ for k, p in mpl.prepare_plots(['a', 'b'], **kw).items()}

    def fig3(**kw):
        fig, ax = mpl.fig_ax3d(**kw)
        return [bool(ax._draw_grid), [float(x) for x in ax.xaxis.pane.get_facecolor()]]

    def leg(**kw):
        p = mpl.Plot()
        p.ax.plot([1, 2], label='a')
        p.ax2 = p.ax.twinx()
        p.ax2.plot([2, 1], label='b')
        l = p.legend(**kw)
        return [[x.get_text() for x in l.get_texts()], l.axes is p.ax, p.collect_legends()[1]]
    try:
        t.defaults(color, axis='y', spine_loc='left', spine_invisible=None)
        t.defaults(free, off=50, loc='bottom', ticks=None, wsadd=0.1, label='', sharex=False, sharey=False)
        t.defaults(free, (), dict(loc='left', label='foo'), off=50, wsadd=0.1)
        t.defaults(plots, projection='2d')
        t.defaults(fig3, clean=False)
        t.defaults(leg, axnames=None, legaxname='ax')
        t.defaults(leg, (), dict(axnames=['ax', 'ax2']), legaxname='ax')
    finally:
        plt.close('all')
