from pv import *
from math import pi
from pwtools import crys

RULE = ('cells are drawn as cubic/orthorhombic/hexagonal/triclinic/skewed/rotated/left-handed with random '
        'scale; a case is non-trivial if the conversion ran on a non-degenerate cell and was compared with the '
        'independent formula (lengths/angles by numpy dot products, det, inverse)')


def my_cc(cell):
    n = np.sqrt((cell**2).sum(1))
    ang = lambda i, j: np.degrees(np.arccos(np.clip(cell[i] @ cell[j] / n[i] / n[j], -1, 1)))
    return np.array(list(n) + [ang(1, 2), ang(0, 2), ang(0, 1)])


cell_case = D(kind=cellkinds, seed=seeds, scale=pick([1e-3, 0.1, 1.0, 1.0, 1.0, 37.0, 1e4]), aslist=bools)


def cell_of(c):
    return make_cell(c['kind'], c['seed']) * c.get('scale', 1.0)


@sub(cell_case, quick=300, thorough=8000)
def cell_to_cc_and_back(case, t):
    cell = cell_of(case)
    with t.unchanged(cell=cell):
        cc = crys.cell2cc(cell.tolist() if case['aslist'] else cell)
    ref = my_cc(cell)
    t.shape(cc, (6,))
    t.close(cc, ref, 'cell2cc', rtol=1e-9, atol=1e-9)
    t.close(crys.volume_cell(cell), abs(np.linalg.det(cell)), 'volume_cell', atol=0)
    t.close(crys.volume_cc(cc), abs(np.linalg.det(cell)), 'volume_cc', rtol=1e-7, atol=0)
    c2 = crys.cc2cell(cc)
    s = case['scale']
    t.shape(c2, (3, 3))
    t.close(my_cc(c2), ref, 'cc2cell keeps lengths and angles', rtol=1e-7, atol=1e-6)
    t.close([c2[0, 1], c2[0, 2], c2[1, 2]], np.zeros(3), 'a along x, b in the x-y plane', atol=1e-10 * s * 10)
    t.ok(c2[0, 0] > 0 and c2[1, 1] > 0 and c2[2, 2] > 0, 'standard orientation is right-handed')
    t.close(crys.volume_cell(c2), abs(np.linalg.det(cell)), 'volume of rebuilt cell', rtol=1e-7, atol=0)
    # metric tensor is the rotation independent description
    t.close(c2 @ c2.T, cell @ cell.T, 'metric', rtol=1e-7, atol=1e-7 * s * s * 100)
    t.nontrivial()
    t.label(case['kind'])


@sub(D(kind=cellkinds, seed=seeds, rot=seeds, perm=pick([[0, 1, 2], [1, 2, 0], [2, 1, 0], [0, 2, 1]])), quick=150)
def rotation_invariance(case, t):
    cell = make_cell(case['kind'], case['seed'])
    R = rand_rot(case['rot'])
    cc = crys.cell2cc(cell)
    t.close(crys.cell2cc(cell @ R), cc, 'lattice constants do not depend on the orientation', rtol=1e-7, atol=1e-5)
    t.close(crys.volume_cell(cell @ R), crys.volume_cell(cell), 'volume')
    p = case['perm']
    ccp = crys.cell2cc(cell[p])
    t.close(ccp, np.concatenate([cc[:3][p], cc[3:][p]]), 'relabelling the axes', rtol=1e-9)
    t.nontrivial()


cc_case = D(a=floats(0.5, 50), b=floats(0.5, 50), c=floats(0.5, 50),
            al=floats(45, 135), be=floats(45, 135), ga=floats(45, 135),
            special=pick(['no', 'no', 'ortho', 'hex', 'mono', 'int', 'rhombo']), fac=pick([1.0, 1.0, 1.8897261, 0.3]))


def cc_of(c):
    cc = np.array([c['a'], c['b'], c['c'], c['al'], c['be'], c['ga']])
    s = c['special']
    if s == 'ortho':
        cc[3:] = 90
    elif s == 'hex':
        cc[1] = cc[0]; cc[3:5] = 90; cc[5] = 120
    elif s == 'mono':
        cc[3] = cc[5] = 90
    elif s == 'int':
        cc = np.ceil(cc)
    elif s == 'rhombo':
        cc[:3] = cc[0]
        cc[3:] = cc[3] * 100 / 135
    ca, cb, cg = np.cos(np.radians(cc[3:]))
    v2 = 1 + 2 * ca * cb * cg - ca**2 - cb**2 - cg**2
    if v2 < 1e-3:
        raise Skip()
    return cc, np.prod(cc[:3]) * np.sqrt(v2)


@sub(cc_case, quick=300, thorough=8000)
def cc_to_cell_and_celldm(case, t):
    cc, vol = cc_of(case)
    with t.unchanged(cc=cc):
        cell = crys.cc2cell(cc)
        v = crys.volume_cc(cc)
        dm = crys.cc2celldm(cc, fac=case['fac'])
    t.close(my_cc(cell), cc, 'cc2cell', rtol=1e-7, atol=1e-6)
    t.ok(abs(cell[0, 1]) + abs(cell[0, 2]) + abs(cell[1, 2]) < 1e-9, 'a along x, b in x-y plane')
    t.ok(np.linalg.det(cell) > 0, 'right-handed')
    t.close(v, vol, 'volume_cc', rtol=1e-9)
    t.close(crys.volume_cell(cell), vol, 'volume_cell', rtol=1e-7)
    t.close(crys.cell2cc(crys.cc2cell(cc)), cc, 'round trip', rtol=1e-7, atol=1e-6)
    f = case['fac']
    t.close(dm, [cc[0] * f, cc[1] / cc[0], cc[2] / cc[0]] + list(np.cos(np.radians(cc[3:]))), 'celldm')
    t.close(crys.celldm2cc(dm, fac=1 / f), cc, 'celldm round trip', rtol=1e-8, atol=1e-7)
    # sequences are accepted as well
    t.close(crys.cc2celldm(cc.tolist(), fac=f), dm)
    t.close(crys.celldm2cc(dm.tolist(), fac=1.0)[:3], cc[:3] * f, 'celldm2cc keeps the unit', rtol=1e-9)
    t.nontrivial()
    t.label(case['special'])


@sub(D(kind=cellkinds_rh, seed=seeds, scale=pick([1e-2, 1.0, 20.0]), aslist=bools), quick=200, thorough=5000)
def reciprocal_cell(case, t):
    cell = cell_of(case)
    with t.unchanged(cell=cell):
        r = crys.recip_cell(cell.tolist() if case['aslist'] else cell)
    t.close(cell @ r.T, 2 * pi * np.eye(3), 'a_i . b_j = 2 pi delta_ij', atol=1e-8)
    t.close(crys.volume_cell(r), (2 * pi)**3 / abs(np.linalg.det(cell)), 'reciprocal volume', rtol=1e-8)
    t.close(crys.recip_cell(r), cell, 'reciprocal of reciprocal', rtol=1e-8, atol=1e-8 * case['scale'])
    t.nontrivial()


@sub(D(kind=pick(['left', 'random']), seed=seeds), quick=60)
def reciprocal_cell_left_handed(case, t):
    cell = make_cell(case['kind'], case['seed'])
    r = crys.recip_cell(cell)
    t.close(cell @ r.T, 2 * pi * np.eye(3), 'a_i . b_j = 2 pi delta_ij', atol=1e-8)
    t.nontrivial(np.linalg.det(cell) < 0)


grid_case = D(kind=cellkinds, seed=seeds, h=floats(0.02, 5), minpoints=ints(1, 4), even=bools, fullout=bools, useh=bools,
              size=st.lists(ints(1, 20), min_size=3, max_size=3), recip=bools, dk=bools)


@sub(grid_case, quick=300, thorough=6000)
def grids(case, t):
    cell = make_cell(case['kind'], case['seed'])
    lens = np.sqrt((cell**2).sum(1))
    f = crys.grid_in_cell
    if case['recip']:
        f = crys.kgrid
        lens = 2 * pi * np.sqrt((np.linalg.inv(cell.T)**2).sum(1))
    if not case['useh']:
        sp = f(cell, size=case['size'])
        t.close(sp, lens / np.array(case['size']), 'spacing for given size')
        t.nontrivial()
        return
    h = case['h']
    x = lens / h
    if np.any(np.abs(x - np.floor(x) - 0.5) < 1e-6):
        t.skip('rounding tie')
    n = np.round(x)
    n = np.maximum(n, case['minpoints']).astype(int)
    if case['even']:
        n = n + n % 2
    kw = dict(minpoints=case['minpoints'], even=case['even'], fullout=case['fullout'])
    kw['dk' if (case['dk'] and case['recip']) else 'h'] = h
    if case['minpoints'] == 1 and not kw['even']:
        kw.pop('minpoints')
    got = f(cell, **kw)
    if case['fullout']:
        got, sp = got
        t.close(sp, lens / got, 'effective spacing')
    got = np.asarray(got)
    t.ok(got.dtype.kind == 'i', 'integer grid')
    t.eq(got.tolist(), n.tolist(), 'number of grid points')
    t.label('minpoints-active' if (np.round(x) < case['minpoints']).any() else 'rounded')
    t.nontrivial()


@sub(D(kind=cellkinds, seed=seeds), quick=40)
def grid_zero_points(case, t):
    cell = make_cell(case['kind'], case['seed'])
    h = 2.5 * np.sqrt((cell**2).sum(1)).max()
    with t.raises(msg='zero grid points must be reported'):
        crys.grid_in_cell(cell, h=h, minpoints=0)
    t.eq(crys.grid_in_cell(cell, h=h).tolist(), [1, 1, 1])
    with t.raises(msg='both h and size'):
        crys.grid_in_cell(cell, h=h, size=[1, 1, 1])
    t.nontrivial()


@sub(D(kinds=st.lists(cellkinds, min_size=1, max_size=6), seed=seeds, axis=ints(0, 2), near=pick([None, None, 1e-2, 1e-4, 3e-6])), quick=200, thorough=4000)
def trajectories_per_step(case, t):
    cells = np.array([make_cell(k, case['seed'] + i) for i, k in enumerate(case['kinds'])])
    if case['near'] is not None:
        # small fluctuations around one cell
        r = rng(case, 5)
        cells = np.array([cells[0] @ (np.eye(3) + case['near'] * r.uniform(-1, 1, (3, 3))) for c in cells])
    ax = case['axis']
    arr = np.moveaxis(cells, 0, ax).copy()
    with t.unchanged(arr=arr):
        v = crys.volume_cell3d(arr, axis=ax)
        cc = crys.cell2cc3d(arr, axis=ax)
    t.close(v, [abs(np.linalg.det(c)) for c in cells], 'volume per step')
    ref = np.array([my_cc(c) for c in cells])
    t.close(cc, ref, 'lattice constants per step', atol=1e-7)
    for cax in (0, 1):
        carr = ref if cax == 0 else ref.T.copy()
        t.close(crys.volume_cc3d(carr, axis=cax), v, 'volume_cc3d', rtol=1e-7)
        t.close(crys.cc2cell3d(carr, axis=cax), np.array([crys.cc2cell(c) for c in ref]), 'cc2cell3d')
    t.nontrivial(len(cells) > 1)


@sub(D(kind=cellkinds, seed=seeds), quick=100)
def smith_radius(case, t):
    cell = make_cell(case['kind'], case['seed'])
    v = abs(np.linalg.det(cell))
    # half of the smallest distance between opposite faces
    faces = [v / np.linalg.norm(np.cross(cell[(i + 1) % 3], cell[(i + 2) % 3])) for i in range(3)]
    t.close(crys.rmax_smith(cell), min(faces) / 2, 'rmax')
    t.nontrivial()


@sub(D(seed=seeds, par=pick(['no', 'par', 'anti', 'int']), s=floats(1e-3, 1e3)), quick=300)
def angle_between(case, t):
    r = rng(case)
    x = r.normal(size=3)
    y = r.normal(size=3)
    ref = None
    if case['par'] == 'par':
        y, ref = x * case['s'], 0.0
    elif case['par'] == 'anti':
        y, ref = -x * case['s'], 180.0
    elif case['par'] == 'int':
        x, y = r.integers(-3, 4, 3), r.integers(-3, 4, 3)
        if not x.any() or not y.any():
            t.skip()
    got = crys.angle(x, y)
    x, y = x / np.linalg.norm(x), y / np.linalg.norm(y)
    if ref is None:
        ref = np.degrees(np.arctan2(np.linalg.norm(np.cross(x, y)), x @ y))
    t.close(got, ref, 'angle', rtol=1e-6, atol=1e-5)
    t.ok(0 <= got <= 180)
    t.nontrivial()


@sub(D(seed=seeds, kind=cellkinds_rh, nstep=ints(2, 5)), quick=40, thorough=400)
def documented_defaults(case, t):
    cell = make_cell(case['kind'], case['seed'])
    cells = np.array([make_cell(case['kind'], case['seed'] + i) for i in range(case['nstep'])])
    cc = my_cc(cell)
    ccs = np.array([my_cc(c) for c in cells])
    t.nontrivial()
    t.defaults(crys.volume_cell3d, (cells,), axis=0)
    t.defaults(crys.cell2cc3d, (cells,), axis=0)
    t.defaults(crys.volume_cc3d, (ccs,), axis=0)
    t.defaults(crys.cc2cell3d, (ccs,), axis=0)
    t.defaults(crys.cc2celldm, (cc,), fac=1.0)
    for fn, a in ((crys.cell2cc, cell), (crys.cc2cell, cc), (crys.recip_cell, cell), (crys.rmax_smith, cell), (crys.volume_cell, cell)):
        t.independent(fn.__name__, fn, a)
    for kw in (dict(h=.4), dict(size=[2, 3, 4])):
        t.independent('kgrid', crys.kgrid, cell, **kw)
    t.defaults(crys.celldm2cc, (crys.cc2celldm(cc),), fac=1.0)
    t.defaults(crys.grid_in_cell, (cell,), dict(h=2.5), minpoints=1, even=False, fullout=False)
    t.defaults(crys.grid_in_cell, (cell,), dict(h=50.0), minpoints=1)
