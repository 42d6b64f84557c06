from pv import *
from pwtools import crys
from pwtools.crys import Structure
from geom import pair_dists as oracle

RULE = ('random structures of 2-14 atoms with 1-4 species, every reference atom/count/cutoff/skip set incl. the species '
        'of the reference atom; non-trivial if at least one neighbour qualifies and one atom does not')

base = dict(seed=seeds, kind=cellkinds, n=sizes(2, 14, 30, 70, 130), idx=ints(0, 13), neg=bools, pbc=bools, bycut=bools,
            num=ints(1, 16), qcut=floats(0.05, 1.2), skip=st.lists(pick(['H', 'C', 'S', 'Si', 'Ca', 'X']), max_size=3),
            skipform=pick(['list', 'tuple', 'str', 'none']), sort=bools, fullout=bools, spread=bools)


def setup(case, t):
    r = rng(case)
    n = case['n']
    idx = case['idx'] % n
    cell = make_cell(case['kind'], case['seed'])
    cf = r.uniform(0, 1, (n, 3)) + (r.integers(-2, 3, (n, 3)) if case['spread'] else 0)
    sym = [str(x) for x in r.choice(['H', 'C', 'S', 'Si', 'Ca'][case['seed'] % 2:], n)]
    d = oracle(cf, cell, case['pbc'])[0][:, idx]
    if (np.delete(d, idx) < 1e-6).any():
        t.skip('coincident atoms')
    skip = case['skip']
    if case['skipform'] == 'none' or not skip:
        skiparg, skip = None, []
    elif case['skipform'] == 'str':
        skip = skip[:1]
        skiparg = skip[0]
    else:
        skiparg = tuple(skip) if case['skipform'] == 'tuple' else list(skip)
    ok = [j for j in range(n) if j != idx and sym[j] not in skip]
    ok.sort(key=lambda j: d[j])
    if case['bycut']:
        cut = case['qcut'] * d.max()
        if (np.abs(d - cut) < 1e-9).any():
            t.skip('tie at the cutoff')
        want = [j for j in ok if d[j] < cut]
        kw = dict(cutoff=cut)
    else:
        kw = dict(num=case['num'])
        want = ok[:case['num']]
        if len(ok) > len(want) and d[ok[len(want)]] - d[want[-1]] < 1e-9:
            t.skip('tie')
    # ties between consecutive neighbours: order not defined
    dw = d[want]
    if len(dw) > 1 and np.diff(dw).min() < 1e-9:
        t.skip('tie')
    kw['idx'] = idx - n if case['neg'] else idx
    if skiparg is not None:
        kw['skip'] = skiparg
    s = Structure(coords_frac=cf, cell=cell, symbols=sym)
    return s, d, want, kw, sym


@sub(D(**base), quick=600, thorough=12000)
def matches_brute_force(case, t):
    s, d, want, kw, sym = setup(case, t)
    w = want if case['sort'] else sorted(want)
    with t.unchanged(s=s, kw=kw):
        got = crys.nearest_neighbors(s, pbc=case['pbc'], sort=case['sort'], fullout=case['fullout'], **kw)
        pre = crys.nearest_neighbors_from_dists(crys.distances(s, pbc=case['pbc']), s.symbols, sort=case['sort'],
                                                fullout=case['fullout'], **kw)
    if case['fullout']:
        t.close(got[1], d[w], 'neighbour distances', rtol=1e-11, atol=1e-11)
        t.close(pre[1], d[w], 'neighbour distances', rtol=1e-11, atol=1e-11)
        got, pre = got[0], pre[0]
    t.eq([int(x) for x in got], w, 'neighbour indices')
    t.eq([int(x) for x in pre], w, 'neighbour indices from given distances')
    t.nontrivial(0 < len(want) < s.natoms - 1 or (len(want) > 0 and not case['bycut']))
    t.label('cutoff' if case['bycut'] else 'num', 'skip-own' if sym[case['idx'] % case['n']] in str(kw.get('skip')) else 'skip-other')


@sub(D(**base), quick=200, thorough=4000)
def neighbour_structure(case, t):
    s, d, want, kw, sym = setup(case, t)
    if case['neg']:
        kw['idx'] += s.natoms
    got = crys.nearest_neighbors_struct(s, pbc=case['pbc'], **kw)
    keep = sorted(want + [kw['idx']])
    t.eq(list(got.symbols), [sym[i] for i in keep], 'symbols')
    t.close(got.coords_frac, s.coords_frac[keep], 'coords_frac')
    t.close(got.cell, s.cell, 'cell')
    t.close(got.coords, s.coords[keep], 'coords')
    t.nontrivial(len(want) > 0)


@sub(D(seed=seeds), quick=20)
def refuses_ambiguous_query(case, t):
    s = Structure(coords_frac=rng(case).uniform(0, 1, (4, 3)), cell=np.eye(3) * 5, symbols=['H', 'O', 'H', 'O'])
    with t.raises(msg='num and cutoff together'):
        crys.nearest_neighbors(s, idx=0, num=2, cutoff=3.0)
    with t.raises(msg='no reference atom'):
        crys.nearest_neighbors(s, num=2)
    t.nontrivial()


@sub(D(seed=seeds, kind=cellkinds, n=ints(3, 12), idx=ints(0, 11), m=ints(1, 4), eps=pick([0.0, 1e-6, 1e-9]), bycut=bools, pbc=bools), quick=150, thorough=2500)
def nearly_equal_distances(case, t):
    """atoms on top of each other or at distances which differ in the last digits"""
    r = rng(case)
    n, m, eps = case['n'], case['m'], case['eps']
    idx = case['idx'] % n
    cell = make_cell(case['kind'], case['seed'])
    cf = r.uniform(0.3, 0.6, (n, 3))
    oth = [j for j in range(n) if j != idx]
    p = [oth[i] for i in r.permutation(n - 1)]
    if eps == 0:
        # coincident with the reference atom (other atoms all the same count as neighbours)
        for j in p[:m]:
            cf[j] = cf[idx]
    else:
        v = r.normal(size=3) * .02
        for k, j in enumerate(p[:m]):
            cf[j] = cf[idx] + v * (1 + k * eps)
        cf[p[m:]] = cf[idx] + .1 + r.uniform(0, .2, (len(p[m:]), 3))
    s = Structure(coords_frac=cf, cell=cell, symbols=['H'] * n)
    t.nontrivial()
    if eps == 0:
        got = crys.nearest_neighbors(s, idx=idx, num=n + 3, pbc=case['pbc'])
        t.eq(sorted(int(x) for x in got), oth, 'all other atoms')
        t.eq(sorted(int(x) for x in got[:min(m, n - 1)]), sorted(p[:m]), 'atoms on top of the reference atom come first')
        return
    d = oracle(cf, cell, case['pbc'])[0][:, idx]
    order = sorted(oth, key=lambda j: d[j])
    first = p[:min(m, n - 1)]
    if order[:len(first)] != first or np.diff(d[order]).min(initial=1) < 1e-12:
        t.skip('numerical tie')
    k = int(r.integers(1, len(first) + 1))
    kw = dict(num=k)
    if case['bycut'] and k < len(first):
        kw = dict(cutoff=.5 * (d[first[k - 1]] + d[first[k]]))
    got, dist = crys.nearest_neighbors(s, idx=idx, pbc=case['pbc'], fullout=True, **kw)
    t.eq([int(x) for x in got], first[:k], 'neighbours at nearly equal distances')
    t.close(dist, d[first[:k]], 'distances', rtol=1e-12, atol=1e-13)


@sub(D(seed=seeds, kind=cellkinds, n=ints(4, 10)), quick=60, thorough=600)
def documented_defaults(case, t):
    r = rng(case, 9)
    cell = make_cell(case['kind'], case['seed'])
    sy = [str(x) for x in r.choice(['H', 'O', 'C'], case['n'])]
    st_ = Structure(coords_frac=r.uniform(0, 1, (case['n'], 3)), cell=cell, symbols=sy)
    i = int(r.integers(case['n']))
    t.nontrivial()
    for kw in (dict(num=3), dict(cutoff=float(cell.max()))):
        g = dict(idx=i, **kw)
        t.defaults(crys.nearest_neighbors, (st_,), g, pbc=True, sort=True, fullout=False, skip=None)
        d = crys.distances(st_, pbc=True)
        t.defaults(crys.nearest_neighbors_from_dists, (d, sy), g, sort=True, fullout=False, skip=None)
