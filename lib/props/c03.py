from pv import *
from pwtools import crys, num
from pwtools.crys import Structure, Trajectory
from geom import wrap_half, pair_dists as oracle

RULE = ('random structures with 1-9 atoms in every cell kind, atoms optionally several periods outside the cell, on '
        'high-symmetry positions (exact halves), or collinear; non-trivial with >= 2 atoms (>= 3 for angles) compared '
        'with loops over pairs/triples')


def fracs(case, n):
    r = rng(case, 1)
    mode = case['pos']
    if mode == 'in':
        return r.uniform(0, 1, (n, 3))
    if mode == 'far':
        return r.uniform(-4, 4, (n, 3))
    if mode == 'veryfar':
        return r.uniform(0, 1, (n, 3)) + r.integers(-300, 300, (n, 3))
    if mode == 'special':
        return r.integers(-4, 9, (n, 3)) / 4.0
    if mode == 'line':
        return np.outer(r.permutation(np.arange(n)) * 0.03, [1, 1, 0]) + 0.1
    raise ValueError(mode)


geo = dict(seed=seeds, kind=cellkinds, n=sizes(1, 9, 20, 33), pos=pick(['in', 'far', 'veryfar', 'special', 'line']), pbc=bools)


@sub(D(squared=bools, fullout=bools, **geo), quick=400, thorough=8000)
def distances(case, t):
    cell = make_cell(case['kind'], case['seed'])
    cf = fracs(case, case['n'])
    s = Structure(coords_frac=cf.copy(), cell=cell)
    d, dv, dvf = oracle(cf, cell, case['pbc'])
    with t.unchanged(s=s):
        got = crys.distances(s, pbc=case['pbc'], squared=case['squared'], fullout=case['fullout'])
    dd = d**2 if case['squared'] else d
    if case['fullout']:
        t.close(got[1], dv, 'distance vectors', atol=1e-7)
        t.close(got[2], dvf, 'fractional distance vectors', atol=1e-9)
        got = got[0]
    t.close(got, dd, 'distances', rtol=1e-7, atol=1e-7)
    t.close(np.diag(got), np.zeros(case['n']), 'self distance')
    if case['pbc']:
        t.close(crys.min_image_convention(cf[:, None, :] - cf[None, :, :], copy=True), dvf, 'numpy minimum image')
    t.nontrivial(case['n'] > 1)
    t.label(case['pos'], 'pbc' if case['pbc'] else 'nopbc')


@sub(D(seed=seeds, shape=st.lists(ints(1, 4), min_size=1, max_size=4), period=pick([0, 1, 5, 200]), copy=bools,
       special=bools), quick=250, thorough=4000)
def minimum_image(case, t):
    r = rng(case)
    x = r.uniform(-1, 1, case['shape']) + r.integers(-case['period'], case['period'] + 1, case['shape'])
    if case['special']:
        x = np.round(x * 4) / 4
    orig = x.copy()
    got = crys.min_image_convention(x, copy=case['copy'])
    t.ok((got >= -0.5).all() and (got < 0.5).all(), 'range [-0.5,0.5): %s' % short(got))
    t.close(orig - got, np.round(orig - got), 'whole periods only', atol=1e-9)
    t.close(got, wrap_half(orig), atol=1e-12)
    if case['copy']:
        t.eq(x, orig, 'copy=True')
    else:
        t.ok(got is x, 'in-place')
    t.nontrivial(bool((np.abs(orig) >= 0.5).any()))


@sub(D(nstep=sizes(1, 6, 40, 130, 270), varcell=pick([False, True, 1e-2, 1e-4]), forder=bools, **geo), quick=250, thorough=4000)
def distances_along_trajectory(case, t):
    ns = case['nstep']
    cells = np.array([make_cell(case['kind'], case['seed'] + (i if case['varcell'] is True else 0)) for i in range(ns)])
    if isinstance(case['varcell'], float):
        r = rng(case, 8)
        cells = np.array([c @ (np.eye(3) + case['varcell'] * r.uniform(-1, 1, (3, 3))) for c in cells])
    cf = np.array([fracs(dict(case, seed=case['seed'] + i), case['n']) for i in range(ns)])
    if case['forder']:
        cf = np.asfortranarray(cf)
    tr = Trajectory(coords_frac=cf, cell=cells)
    with t.unchanged(tr=tr):
        got = crys.distances_traj(tr, pbc=case['pbc'])
    exp = np.array([oracle(cf[i], cells[i], case['pbc'])[0] for i in range(ns)])
    t.close(got, exp, 'distances_traj', rtol=1e-7, atol=1e-7)
    t.nontrivial(case['n'] > 1 and ns > 1)
    for i, s in enumerate(tr):
        t.close(crys.distances(s, pbc=case['pbc']), exp[i], 'per step', rtol=1e-7, atol=1e-7)


@sub(D(deg=bools, mask=pick([999.0, -77.5, 500]), **geo), quick=300, thorough=5000)
def angles(case, t):
    n = min(case['n'], 7)
    cell = make_cell(case['kind'], case['seed'])
    cf = fracs(case, n)
    d, dv, _ = oracle(cf, cell, case['pbc'])
    if n > 1 and d[~np.eye(n, dtype=bool)].min() < 1e-3:
        t.skip('coincident atoms')
    s = Structure(coords_frac=cf.copy(), cell=cell)
    with t.unchanged(s=s):
        got = crys.angles(s, pbc=case['pbc'], mask_val=case['mask'], deg=case['deg'])
    t.shape(got, (n, n, n))
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if len({i, j, k}) < 3:
                    t.ok(got[i, j, k] == case['mask'], 'masked entry %s is %r' % ((i, j, k), got[i, j, k]))
                    continue
                c = dv[i, j] @ dv[i, k] / d[i, j] / d[i, k]
                if case['deg']:
                    a = np.degrees(np.arctan2(np.linalg.norm(np.cross(dv[i, j], dv[i, k])), dv[i, j] @ dv[i, k]))
                    t.close(got[i, j, k], a, 'angle at %d between %d and %d' % (i, j, k), rtol=1e-6, atol=2e-5)
                    t.ok(0 <= got[i, j, k] <= 180)
                else:
                    t.close(got[i, j, k], c, 'cosine', rtol=1e-7, atol=1e-7)
    t.nontrivial(n > 2)
    t.label('deg' if case['deg'] else 'cos', case['pos'])


@sub(D(deg=bools, mask=floats(-1, 1)), quick=20)
def angle_mask_value_must_be_outside(case, t):
    s = Structure(coords_frac=np.array([[0, 0, 0], [.1, .2, .3], [.3, .1, .1]]), cell=np.eye(3) * 4)
    m = abs(case['mask']) * 180 if case['deg'] else case['mask']
    with t.raises(msg='ambiguous mask value accepted'):
        crys.angles(s, mask_val=m, deg=case['deg'])
    t.nontrivial()


@sub(D(seed=seeds, nx=sizes(1, 6, 70, 200, 520), ny=sizes(1, 6, 70, 200, 520), nd=ints(1, 5), forder=bools), quick=150)
def squared_distances_between_point_sets(case, t):
    r = rng(case)
    x, y = r.normal(size=(case['nx'], case['nd'])), r.normal(size=(case['ny'], case['nd']))
    if case['forder']:
        x, y = np.asfortranarray(x), np.asfortranarray(y)
    exp = np.array([[((a - b)**2).sum() for b in y] for a in x])
    with t.unchanged(x=x, y=y):
        t.close(num.distsq(x, y), exp, 'distsq')
    t.nontrivial()


@sub(D(nstep=ints(1, 4), **geo), quick=40, thorough=400)
def documented_defaults(case, t):
    r = rng(case, 9)
    cell = make_cell(case['kind'], case['seed'])
    st_ = Structure(coords_frac=r.uniform(-.5, 1.5, (5, 3)), cell=cell, symbols=['H'] * 5)
    tr = Trajectory(coords_frac=r.uniform(-.5, 1.5, (case['nstep'], 4, 3)), cell=np.array([cell] * case['nstep']), symbols=['H'] * 4)
    t.nontrivial()
    t.defaults(crys.distances, (st_,), pbc=False, squared=False, fullout=False)
    t.defaults(crys.distances, (st_,), dict(pbc=True), squared=False, fullout=False)
    t.defaults(crys.distances_traj, (tr,), pbc=False)
    t.defaults(crys.angles, (st_,), pbc=False, mask_val=999.0, deg=True)
    t.defaults(crys.angles, (st_,), dict(pbc=True), mask_val=999.0, deg=True)
    s = r.uniform(-1, 1, (4, 4, 3)) * .999
    t.defaults(crys.min_image_convention, (s,), copy=False)
