from pv import *
from gen import *
from geom import pair_dists
from pwtools import crys
from pwtools.crys import Structure, Trajectory

RULE = ('random structures/trajectories with atoms many periods outside the cell, integer or exactly-on-the-edge '
        'coordinates, masks, axes, copy modes; random rotations and ways to define the new axes; non-trivial if '
        'something was moved/rotated')


def frac(case, shape):
    r = rng(case, 3)
    x = r.uniform(-1, 2, shape)
    if case['far']:
        x = x + r.integers(-40, 40, shape)
    if case['edge']:
        x = np.where(r.uniform(size=shape) < 0.4, np.round(x), x)
    return x


@sub(D(seed=seeds, shape=st.lists(ints(1, 5), min_size=1, max_size=2), axis=ints(0, 2), mask=st.none() | st.lists(bools, min_size=3, max_size=3),
       copy=bools, far=bools, edge=bools, order=pick(['C', 'F', 'view'])), quick=300, thorough=6000)
def wrap_arrays(case, t):
    shape = list(case['shape'])
    ax = case['axis'] % (len(shape) + 1)
    shape.insert(ax, 3)
    x = frac(case, shape)
    if case['order'] == 'F':
        x = np.asfortranarray(x)
    elif case['order'] == 'view':
        x = x[::-1]
    orig = x.copy()
    mask = case['mask']
    kw = {} if mask is None else dict(mask=mask)
    if ax != len(shape) - 1 or case['seed'] % 2:
        kw['xyz_axis'] = ax if case['seed'] % 3 else ax - len(shape)
    y = crys.pbc_wrap_coords(x, copy=case['copy'], **kw)
    if case['copy']:
        t.eq(x, orig, 'copy=True modified the input')
        t.ok(not np.shares_memory(x, y), 'result shares memory with the input')
    else:
        t.eq(x, y, 'copy=False works in place')
    mk = [True] * 3 if mask is None else mask
    ym, om = np.moveaxis(np.asarray(y), ax, -1), np.moveaxis(orig, ax, -1)
    for i in range(3):
        d = ym[..., i] - om[..., i]
        if mk[i]:
            t.ok((ym[..., i] >= 0).all() and (ym[..., i] <= 1).all(), 'not in [0,1]')
            t.close(d, np.round(d), 'not moved by whole lattice vectors', atol=1e-9)
            inside = (om[..., i] >= 0) & (om[..., i] < 1)
            t.ok((d[inside] == 0).all(), 'atom inside the cell was moved')
            t.ok((ym[..., i][om[..., i] == np.round(om[..., i])] == 0).all(), 'atom exactly on the far edge is not moved to zero')
        else:
            t.ok((d == 0).all(), 'masked axis was changed')
    t.nontrivial(bool((ym != om).any()))


@sub(D(seed=seeds, kind=cellkinds, traj=bools, n=sizes(1, 6, 40, 110), nstep=sizes(1, 4, 40, 110), copy=bools, far=bools, edge=bools,
       mask=st.none() | st.lists(bools, min_size=3, max_size=3), op=pick(['wrap', 'center']), idx=ints(-6, 5)), quick=300, thorough=5000)
def wrap_and_center_objects(case, t):
    traj = case['traj']
    n, ns = case['n'], case['nstep']
    raw = raw_traj(case['seed'], case['kind'], n, ns, True) if traj else raw_struct(case['seed'], case['kind'], n)
    cf = frac(case, raw['coords_frac'].shape)
    kw = dict(coords_frac=cf.copy(), cell=raw['cell'].copy(), symbols=list(raw['symbols']), forces=raw['forces'].copy(), etot=raw['etot'])
    o = (Trajectory if traj else Structure)(**kw)
    ref = o.copy()
    idx = case['idx']
    if case['op'] == 'center' and not -n <= idx < n:
        idx = idx % n
    f = (lambda: crys.pbc_wrap(o, copy=case['copy'], **({} if case['mask'] is None else dict(mask=case['mask'])))) \
        if case['op'] == 'wrap' else (lambda: crys.center_on_atom(o, idx=idx, copy=case['copy']))
    out = f()
    if case['copy']:
        t.eq(o, ref, 'copy=True modified the input')
        t.ok(out is not o, 'returns a copy')
    else:
        t.ok(out is o, 'copy=False works in place')
    t.ok(type(out) is type(ref), 'type')
    for k in ref.attr_lst:
        if k not in ('coords', 'coords_frac', 'velocity', 'ekin', 'temperature'):
            t.eq(getattr(out, k), getattr(ref, k), k)
    t.close(out.coords, np.einsum('...ij,...jk->...ik', out.coords_frac, ref.cell), 'coords fit to coords_frac', rtol=1e-8, atol=1e-6)
    if case['op'] == 'wrap':
        want = crys.pbc_wrap_coords(cf, copy=True, **({} if case['mask'] is None else dict(mask=case['mask'])))
        t.eq(out.coords_frac, want, 'coords_frac')
        d = out.coords_frac - cf
        t.close(d, np.round(d), 'whole lattice vectors', atol=1e-9)
        mv = bool((d != 0).any())
    else:
        t.close(out.coords_frac[..., idx, :], np.full(out.coords_frac[..., idx, :].shape, 0.5), 'atom is at the center', atol=1e-9)
        d = out.coords_frac - cf
        t.close(d, np.broadcast_to(d[..., :1, :], d.shape), 'rigid shift', atol=1e-9)
        mv = True
    for i in range(ns if traj else 1):
        a, b, c = (cf[i], out.coords_frac[i], raw['cell'][i]) if traj else (cf, out.coords_frac, raw['cell'])
        fa, fb = a[:, None] - a[None], b[:, None] - b[None]
        da, db = fa - np.round(fa), fb - np.round(fb)
        amb = np.abs(np.abs(da) - 0.5).min() if n else 1
        if amb > 1e-6:
            t.close(np.sqrt(((db @ c)**2).sum(-1)), np.sqrt(((da @ c)**2).sum(-1)), 'periodic distances', rtol=1e-6, atol=1e-6)
    if case['op'] == 'center':
        with t.raises(AssertionError, msg='center_on_atom without idx'):
            crys.center_on_atom(o)
    t.nontrivial(mv)


@sub(D(seed=seeds, kind=cellkinds, rot=seeds, traj=bools, n=sizes(3, 7, 40, 110), nstep=sizes(1, 3, 40, 110), how=pick(['cart', 'xy', 'vecs', 'indices']),
       sx=floats(0.2, 5), sy=floats(0.2, 5), ind=st.lists(ints(0, 6), min_size=3, max_size=3, unique=True), step=ints(0, 2)), quick=300, thorough=5000)
def align(case, t):
    traj = case['traj']
    n, ns = case['n'], case['nstep']
    raw = raw_traj(case['seed'], case['kind'], n, ns, True) if traj else raw_struct(case['seed'], case['kind'], n)
    R = rand_rot(case['rot'])          # rows: new x, y, z axes
    kw = dict(symbols=raw['symbols'], cell=raw['cell'], coords_frac=raw['coords_frac'])
    how = case['how']
    arg = {}
    if how == 'cart':
        arg = dict(cart=R)
    elif how == 'xy':
        arg = dict(x=R[0] * case['sx'], y=R[1] * case['sy'])
    elif how == 'vecs':
        v0 = rng(case, 7).normal(size=3)
        arg = dict(vecs=np.array([v0, v0 + R[0] * case['sx'], v0 + R[1] * case['sy']]))
    else:
        ind = [i % n for i in case['ind']]
        if len(set(ind)) < 3:
            t.skip()
        co = np.array(raw['coords'])
        s = case['step'] % ns
        fr = co[s] if traj else co
        fr[ind[1]] = fr[ind[0]] + R[0] * case['sx']
        fr[ind[2]] = fr[ind[0]] + R[1] * case['sy']
        kw.pop('coords_frac')
        kw['coords'] = co
        arg = dict(indices=([s] if traj else []) + ind)
    o = (Trajectory if traj else Structure)(**kw)
    with t.unchanged(o=o, arg=arg):
        out = crys.align_cart(o, **arg)
    t.ok(type(out) is type(o), 'type')
    t.eq(out.coords_frac, o.coords_frac, 'fractional coordinates')
    t.eq(list(out.symbols), list(o.symbols), 'symbols')
    # component along the new axes
    t.close(out.cell, np.einsum('...ij,kj->...ik', o.cell, R), 'cell in the new coordinate system', rtol=1e-7, atol=1e-6)
    t.close(out.coords, np.einsum('...ij,kj->...ik', o.coords, R), 'positions in the new coordinate system', rtol=1e-7, atol=1e-5)
    t.close(out.cryst_const, o.cryst_const, 'lattice constants', rtol=1e-7, atol=1e-5)
    t.close(np.linalg.det(out.cell), np.linalg.det(o.cell), 'handedness and volume', rtol=1e-7, atol=1e-6)
    if how == 'indices':
        p = out.coords[case['step'] % ns] if traj else out.coords
        d1, d2 = p[ind[1]] - p[ind[0]], p[ind[2]] - p[ind[0]]
        t.close(d1, [case['sx'], 0, 0], 'v1-v0 is along x', atol=1e-6)
        t.close(d2, [0, case['sy'], 0], 'v2-v0 is along y', atol=1e-6)
    t.nontrivial()
    t.label(how)


@sub(D(seed=seeds, rot=seeds, ang=floats(5, 85), eps=pick([None, 0, -1.0])), quick=60, thorough=600)
def align_rejects_non_orthogonal_axes(case, t):
    raw = raw_struct(case['seed'], 'tric', 3)
    o = Structure(coords_frac=raw['coords_frac'], cell=raw['cell'], symbols=raw['symbols'])
    R = rand_rot(case['rot'])
    a = np.radians(case['ang'])
    y = np.cos(a) * R[0] + np.sin(a) * R[1]
    if case['eps'] is None:
        with t.raises(AssertionError, msg='non-orthogonal x, y'):
            crys.align_cart(o, x=R[0], y=y)
    else:
        out = crys.align_cart(o, x=R[0], y=y, eps=case['eps'])
        cart = np.array([R[0], y, np.cross(R[0], y)])
        t.close(out.cell, o.cell @ cart.T, 'check disabled: cell', rtol=1e-8, atol=1e-8)
    # the same for a matrix: shear and dilatation with unit volume, scaled rotation
    for k, M in enumerate(([[1, .3, 0], [0, 1, 0], [0, 0, 1]], np.diag([2, .5, 1]), np.eye(3) * 1.2)):
        cart = np.array(M) @ R
        with t.raises(AssertionError, msg='non-orthogonal matrix %d' % k):
            crys.align_cart(o, cart=cart)
    t.nontrivial()


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 5), perm=seeds), quick=60, thorough=600)
def cell_aligned_along_x(case, t):
    """align_cart(x=a, y=b_perp) brings a cell into the convention of cc2cell"""
    raw = raw_struct(case['seed'], case['kind'], case['n'])
    c = raw['cell']
    if np.linalg.det(c) < 0:
        t.skip('left-handed cells cannot be rotated into the convention')
    x = c[0]
    e = x / np.linalg.norm(x)
    y = c[1] - (c[1] @ e) * e
    o = Structure(coords_frac=raw['coords_frac'], cell=c, symbols=raw['symbols'])
    out = crys.align_cart(o, x=x, y=y)
    t.close(out.cell, crys.cc2cell(o.cryst_const), 'cell', rtol=1e-7, atol=1e-6)
    t.nontrivial()


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 5), nstep=ints(1, 3), traj=bools), quick=60, thorough=600)
def documented_defaults(case, t):
    r = rng(case, 9)
    if case['traj']:
        kw = raw_traj(case['seed'], case['kind'], case['n'], case['nstep'])
        obj = Trajectory(coords_frac=kw['coords_frac'], cell=kw['cell'], symbols=kw['symbols'])
    else:
        kw = raw_struct(case['seed'], case['kind'], case['n'])
        obj = Structure(coords_frac=kw['coords_frac'], cell=kw['cell'], symbols=kw['symbols'])
    t.nontrivial()
    t.defaults(crys.pbc_wrap, (obj,), copy=True)
    t.defaults(crys.center_on_atom, (obj,), dict(idx=int(r.integers(case['n']))), copy=True)
    t.defaults(crys.pbc_wrap_coords, (r.uniform(-2, 2, (4, 3)),), copy=True, mask=[True] * 3, xyz_axis=-1)
    t.defaults(crys.pbc_wrap_coords, (r.uniform(-2, 2, (3, 3)),), xyz_axis=-1, mask=[True] * 3)
