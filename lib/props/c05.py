from pv import *
from math import pi
from pwtools import crys
from pwtools.crys import Structure, Trajectory
from geom import wrap_half

RULE = ('random structures/trajectories (1-5 steps, 1-10 atoms, fixed cell, pbc on/off), masks as names or bool arrays, '
        'dmask/tmask/rmax variants; compared with a loop over steps and pairs; non-trivial if at least one pair falls '
        'into the histogram. Cases with a distance within 1e-10 of a bin edge are skipped')

amasks = pick(['none', 'one', 'two', 'bool', 'bool1'])
dmasks = pick([None, None, '>=1.0', '{d} >=1.0', '({d} > 1.0) & ({d} < 3.0)', '< 2.5'])
tmasks = pick([None, None, [0, None, 1], [1, None, 2], [None, 3, None], 'last', 'first'])


def build(case, salt=0):
    r = rng(case, salt)
    ns, n = case['nstep'], case['n']
    cf = r.uniform(0, 1, (ns, n, 3))
    if case['out']:
        cf = cf + r.integers(-2, 3, (ns, n, 3))
    return cf


@sub(D(seed=seeds, kind=cellkinds, n=sizes(1, 10, 25, 60), nstep=sizes(1, 5, 40, 110, 260), out=bools, pbc=bools, amask=amasks, dmask=dmasks,
       tmask=tmasks, dr=floats(0.05, 1.0), rmax=pick(['auto', 'auto', 0.7, 1.6]), form=pick(['struct', 'traj', 'list1', 'list2']),
       vmd=bools, near=pick([None, None, None, None, 1e-8, -1e-8, 1e-9])), quick=500, thorough=10000)
def pair_distribution(case, t):
    n = case['n']
    if case['form'] == 'struct':
        case['nstep'] = 1
    ns = case['nstep']
    cell = make_cell(case['kind'], case['seed'])
    r = rng(case, 9)
    A, B = [('H', 'O'), ('C', 'Ca'), ('Si', 'S'), ('He', 'H')][case['seed'] % 4]
    sym = [str(x) for x in r.choice([A, B], n)]
    cfa = build(case)
    cfb = cfa
    kw = dict(symbols=list(sym), cell=cell.copy())
    mk = lambda cf: Structure(coords_frac=cf[0].copy(), **kw) if case['form'] == 'struct' else Trajectory(coords_frac=cf.copy(), **kw)
    a = mk(cfa)
    if case['form'] == 'list2':
        cfb = build(case, 1)
        if case['seed'] % 3 == 0:       # the same in some steps
            same = rng(case, 77).random(ns) < .5
            cfb[same] = cfa[same]
        arg = [a, mk(cfb)]
    else:
        arg = [a] if case['form'] == 'list1' else a
    allm = np.ones(n, bool)
    sy = np.array(sym)
    am = {'none': None, 'one': [B], 'two': [B, A], 'bool': [sy == A, r.random(n) < 0.6], 'bool1': [r.random(n) < 0.6]}[case['amask']]
    if am is None:
        m0 = m1 = allm
    else:
        ms = [sy == x if isinstance(x, str) else x for x in am]
        m0, m1 = ms[0], ms[-1]
    if m0.sum() == 0 or m1.sum() == 0:
        t.skip('empty selection')
    v = abs(np.linalg.det(cell))
    auto = 0.5 * min(v / np.linalg.norm(np.cross(cell[(i + 1) % 3], cell[(i + 2) % 3])) for i in range(3))
    dr = case['dr']
    if case['near']:
        # a bin edge right at the distance of a pair
        dv = cfa[0][np.flatnonzero(m0)[0]] - cfb[0][np.flatnonzero(m1)[-1]]
        d0 = np.linalg.norm((wrap_half(dv) if case['pbc'] else dv) @ cell)
        if d0 > 0.1:
            dr = d0 / max(1, round(d0 / dr)) * (1 + case['near'])
    rmax = auto if case['rmax'] == 'auto' else case['rmax'] * auto
    tm = case['tmask']
    steps = list(range(ns))
    if tm == 'last':
        tmask, steps = -1, [ns - 1]
    elif tm == 'first':
        tmask, steps = 0, [0]
    elif tm is None:
        tmask = None
    else:
        tmask = slice(*tm)
        steps = steps[tmask]
    if not steps:
        t.skip('no steps')
    kwargs = dict(dr=dr, pbc=case['pbc'], norm_vmd=case['vmd'])
    if case['rmax'] != 'auto':
        kwargs['rmax'] = rmax
    if am is not None:
        kwargs['amask'] = am
    if tmask is not None:
        kwargs['tmask'] = tmask
    if case['dmask']:
        kwargs['dmask'] = case['dmask']
    with t.unchanged(arg=arg, kwargs=kwargs):
        got = crys.rpdf(arg, **kwargs)
    # brute force
    edges = np.arange(0, rmax + dr, dr)
    nb = len(edges) - 1
    x = rmax / dr
    if abs(x - round(x)) < 1e-9:
        t.skip('rmax is a multiple of dr')
    idx0, idx1 = np.flatnonzero(m0), np.flatnonzero(m1)
    g = np.zeros(nb)
    ni = np.zeros(nb)
    shells = 4 / 3 * pi * (edges[1:]**3 - edges[:-1]**3)
    npairs = 0
    for s in steps:
        h = np.zeros(nb)
        dup = 0
        dv = cfa[s][list(idx0)][:, None] - cfb[s][list(idx1)][None]
        if case['pbc']:
            dv = wrap_half(dv)
        d = np.sqrt(((dv.reshape(-1, 3) @ cell)**2).sum(axis=1))
        dup = int((d < 1e-15).sum())
        k = np.searchsorted(edges, d)
        near_edge = np.minimum(np.abs(d - edges[np.clip(k, 0, len(edges) - 1)]), np.abs(d - edges[np.clip(k - 1, 0, len(edges) - 1)]))
        if ((near_edge < 1e-10) & (d > 1e-9)).any():
            t.skip('distance at a bin edge')
        if min([np.abs(d - c).min() for c in (rmax, 1, 3, 2.5)] if len(d) else [1]) < 1e-10:
            t.skip('distance at a cutoff')
        keep = d < rmax
        if case['dmask']:
            keep &= {'>=1.0': d >= 1, '{d} >=1.0': d >= 1, '({d} > 1.0) & ({d} < 3.0)': (1 < d) & (d < 3), '< 2.5': d < 2.5}[case['dmask']]
        b = np.searchsorted(edges, d[keep], side='right') - 1
        b = b[b > 0]                # documented: the first bin is not counted
        np.add.at(h, b, 1)
        npairs += len(b)
        den = len(idx0) * len(idx1) - (dup if case['vmd'] else 0)
        if den == 0:
            t.skip('only self pairs')
        g += h * v / shells / den
        ni += np.cumsum(h) / len(idx0)
    t.shape(got, (nb, 3), 'rpdf')
    t.close(got[:, 0], edges[:-1] + 0.5 * dr, 'radius = bin centres')
    t.close(got[:, 1], g / len(steps), 'g(r)', rtol=1e-8, atol=1e-10)
    t.close(got[:, 2], ni / len(steps), 'number integral', rtol=1e-9)
    t.nontrivial(npairs > 0)
    t.label(case['form'], case['amask'])


@sub(D(seed=seeds, n=ints(2, 8), nstep=sizes(1, 4, 40, 110), out=bools, kind=cellkinds), quick=60, thorough=1000)
def object_forms_agree(case, t):
    cell = make_cell(case['kind'], case['seed'])
    cf = build(case)
    sym = ['H'] * (case['n'] - 1) + ['O']
    tr = Trajectory(coords_frac=cf, cell=cell, symbols=sym)
    a = crys.rpdf(tr, dr=0.3)
    for arg in ([tr], [tr, tr], [tr, tr.copy()]):
        t.eq(crys.rpdf(arg, dr=0.3), a, 'same as rpdf(traj)')
    lst, am = [tr], ['O']
    b1 = crys.rpdf(lst, dr=0.3, amask=am)
    b2 = crys.rpdf(lst, dr=0.3, amask=am)
    t.eq(b1, b2, 'repeated call with the same arguments')
    t.eq(am, ['O'], 'amask untouched')
    t.ok(len(lst) == 1, 'trajs list untouched')
    mean = np.mean([crys.rpdf(s, dr=0.3) for s in tr], axis=0)
    t.close(a, mean, 'time average', rtol=1e-8)
    t.nontrivial()


@sub(D(seed=seeds, n=ints(2, 5)), quick=20)
def memory_limit_and_mismatch_are_reported(case, t):
    cell = np.eye(3) * 5
    r = rng(case)
    tr = Trajectory(coords_frac=r.uniform(0, 1, (2, case['n'], 3)), cell=cell, symbols=['H'] * case['n'])
    with t.raises(msg='maxmem'):
        crys.rpdf(tr, maxmem=1e-9)
    tr2 = Trajectory(coords_frac=r.uniform(0, 1, (3, case['n'], 3)), cell=cell, symbols=['H'] * case['n'])
    with t.raises(msg='different number of steps'):
        crys.rpdf([tr, tr2])
    with t.raises(msg='three objects'):
        crys.rpdf([tr, tr, tr])
    n = case['n']
    mk = lambda nstep, sy='H', c=cell: Trajectory(coords_frac=r.uniform(0, 1, (nstep, n, 3)), cell=c, symbols=[sy] * n)
    kw = dict(rmax=2., dr=.1)
    for a, b in ((1, 3), (3, 1), (2, 4)):
        with t.raises(msg='%d and %d steps' % (a, b)):
            crys.rpdf([mk(a), mk(b)], **kw)
    with t.raises(msg='other symbols'):
        crys.rpdf([mk(2), mk(2, 'He')], **kw)
    with t.raises(msg='other cell'):
        crys.rpdf([mk(2), mk(2, c=cell * 1.01)], **kw)
    with t.raises(msg='three masks'):
        crys.rpdf(mk(2), amask=['H', 'H', 'H'], **kw)
    t.nontrivial()


@sub(D(seed=seeds, n=ints(2, 6), nstep=ints(1, 3), kind=cellkinds), quick=20, thorough=200)
def documented_defaults(case, t):
    r = rng(case, 9)
    cells = np.array([make_cell(case['kind'], case['seed'])] * case['nstep'])
    tr = Trajectory(coords_frac=r.uniform(-.5, 1.5, (case['nstep'], case['n'], 3)), cell=cells, symbols=['H', 'O'] * (case['n'] // 2) + ['O'] * (case['n'] % 2))
    t.nontrivial()
    t.defaults(crys.rpdf, (tr,), dr=0.05, rmax='auto', pbc=True, norm_vmd=False, amask=None, tmask=None, dmask=None)
    t.defaults(crys.rpdf, ([tr, tr],), dict(amask=["symbols=='O'", "symbols=='O'"], rmax=3.0), norm_vmd=False, pbc=True, dr=0.05)
