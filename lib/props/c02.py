from pv import *
from pwtools import crys, _flib
from pwtools.crys import Structure, Trajectory

RULE = ('random bases (all cell kinds, dimension 1-4 for the general transform), arrays of rank 1-4 with the vector axis '
        'at every position, float/int, C/F/strided; non-trivial if the two bases differ and >= 1 vector was transformed '
        'and compared with solving sum_i c_i e_i = v')


def basis(m, seed, kind=None):
    if m == 3 and kind:
        return make_cell(kind, seed)
    r = np.random.default_rng([seed, 3])
    while True:
        b = r.uniform(-2, 2, (m, m))
        if abs(np.linalg.det(b)) > 0.2**m and np.linalg.cond(b) < 50:
            return b


def layout(a, how):
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'strided':
        big = np.full(tuple(2 * n for n in a.shape), 7.5).astype(a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if how == 'neg':
        return a[::-1].copy()[::-1]
    return a.copy()


layouts = pick(['C', 'F', 'strided', 'neg'])

def related(old, new, kind, seed):
    """special pairs of bases"""
    r = np.random.default_rng([seed, 4])
    m = len(old)
    q = np.linalg.qr(r.normal(size=(m, m)))[0]
    if kind == 'rot':
        return old, q
    if kind == 'rotold':
        return q, new
    if kind == 'rots':
        return np.linalg.qr(r.normal(size=(m, m)))[0], q
    if kind == 'near':          # the same up to a tiny strain
        return old, old @ (np.eye(m) + r.normal(size=(m, m)) * 1e-6)
    if kind == 'same':
        return old, old.copy()
    if kind == 'perm':
        return old, old[r.permutation(m)]
    if kind == 'diag':
        return np.diag(r.uniform(1, 9, m)), np.diag(r.uniform(1, 9, m))
    if kind == 'scaled':
        return old, old * r.uniform(1, 9)
    return old, new


gen = D(seed=seeds, rel=pick([None, None, 'rot', 'rotold', 'rots', 'near', 'same', 'perm', 'diag', 'scaled']), m=ints(1, 4), other=st.lists(ints(1, 4), min_size=0, max_size=3), pos=ints(0, 3), neg=bools,
        kind=cellkinds, kind2=cellkinds, isint=bools, lay=layouts, copy=bools)


@sub(gen, quick=400, thorough=8000)
def general_transform(case, t):
    m = case['m']
    old, new = basis(m, case['seed'], case['kind']), basis(m, case['seed'] + 1, case['kind2'])
    old, new = related(old, new, case['rel'], case['seed'])
    pos = min(case['pos'], len(case['other']))
    shape = list(case['other'])
    shape.insert(pos, m)
    r = rng(case)
    isint = case['isint'] and case['copy']
    arr = r.integers(-5, 6, shape) if isint else r.normal(size=shape) * 3
    if isint and case['seed'] % 3:
        arr = abs(arr).astype(['u1', 'u4', 'i2', 'i4'][case['seed'] % 4])
    arr = layout(arr, case['lay'])
    nd = arr.ndim
    axis = pos - nd if case['neg'] else pos
    # oracle: same geometric vector
    vecs = np.moveaxis(arr, pos, -1) @ old
    exp = np.moveaxis(np.linalg.solve(new.T, vecs.reshape(-1, m).T).T.reshape(vecs.shape), -1, pos)
    kw = dict(old=old, new=new, copy=case['copy'], axis=axis)
    if pos == nd - 1 and case['neg']:
        kw.pop('axis')
    orig = arr.copy()
    with t.unchanged(old=old, new=new):
        got = crys.coord_trans(arr, **kw)
    t.close(got, exp, 'coord_trans', rtol=1e-8, atol=1e-10)
    if case['copy']:
        t.eq(arr, orig, 'input must be unchanged')
        t.ok(not np.shares_memory(got, arr), 'copy shares memory')
    else:
        t.close(arr, exp, 'in-place result', rtol=1e-8, atol=1e-8)
    back = crys.coord_trans(np.array(got), old=new, new=old, axis=axis)
    t.close(back, orig, 'reverse transform', rtol=1e-7, atol=1e-9)
    t.nontrivial(arr.size > 0 and case['rel'] != 'same')
    t.label('axis%d/%d' % (pos, nd))


@sub(D(seed=seeds, nstep=sizes(1, 5, 60, 300), n=sizes(1, 5, 100), kinds=st.lists(cellkinds, min_size=2, max_size=2),
       perm=pick([(0, 1, 2), (1, 0, 2), (1, 2, 0), (0, 2, 1), (2, 0, 1), (2, 1, 0)]), neg=bools, lay=layouts),
     quick=250, thorough=4000)
def variable_basis_transform(case, t):
    ns, n = case['nstep'], case['n']
    old = np.array([make_cell(case['kinds'][0], case['seed'] + i) for i in range(ns)])
    new = np.array([make_cell(case['kinds'][1], case['seed'] + 100 + i) for i in range(ns)])
    c = rng(case).normal(size=(ns, n, 3))
    exp = np.array([np.linalg.solve(new[i].T, (c[i] @ old[i]).T).T for i in range(ns)])
    # perm: position of (time, atom, xyz) axes: arr = c.transpose(perm)
    perm = tuple(case['perm'])
    tax = perm.index(0)
    rest = [p for p in perm if p != 0]
    xax = rest.index(2)
    arr = layout(c.transpose(perm), case['lay'])
    o = np.moveaxis(old, 0, tax).copy()
    nw = np.moveaxis(new, 0, tax).copy()
    timeaxis = tax - 3 if case['neg'] else tax
    axis = xax - 2 if case['neg'] else xax
    with t.unchanged(arr=arr, o=o, nw=nw):
        got = crys.coord_trans3d(arr, old=o, new=nw, axis=axis, timeaxis=timeaxis)
    t.close(got, exp.transpose(perm), 'coord_trans3d', rtol=1e-8, atol=1e-8)
    t.nontrivial(ns > 1)
    t.label('time%d' % tax)


@sub(D(seed=seeds, kind=cellkinds, n=sizes(1, 12, 70, 150), nstep=sizes(1, 6, 60, 130, 300), varcell=bools, lay=layouts, far=bools, isint=bools),
     quick=300, thorough=5000)
def compiled_equals_numpy(case, t):
    r = rng(case)
    n, ns = case['n'], case['nstep']
    cells = np.array([make_cell(case['kind'], case['seed'] + (i if case['varcell'] else 0)) for i in range(ns)])
    cf = r.uniform(-3, 3, (ns, n, 3)) * (100 if case['far'] else 1)
    if case['isint']:
        cf = np.round(cf)
    cart = np.array([cf[i] @ cells[i] for i in range(ns)])
    sc = 100 if case['far'] else 1
    cfl, cl, cel = layout(cf, case['lay']), layout(cart, case['lay']), layout(cells, case['lay'])
    with t.unchanged(cfl=cfl, cl=cl, cel=cel):
        for i in range(ns):
            s = Structure(coords_frac=cfl[i], cell=cel[i])
            t.close(s.coords, cart[i], 'Structure frac->cart', atol=1e-9 * sc)
            s = Structure(coords=cl[i], cell=cel[i])
            t.close(s.coords_frac, cf[i], 'Structure cart->frac', rtol=1e-8, atol=1e-9 * sc)
        tr = Trajectory(coords_frac=cfl, cell=cel if case['varcell'] else cel[0])
        t.close(tr.coords, cart, 'Trajectory frac->cart', atol=1e-9 * sc)
        tr = Trajectory(coords=cl, cell=cel if case['varcell'] else cel[0])
        t.close(tr.coords_frac, cf, 'Trajectory cart->frac', rtol=1e-8, atol=1e-9 * sc)
        one = np.eye(3)
        t.close(crys.coord_trans(cfl[0], old=cel[0], new=one), cart[0], 'numpy frac->cart', atol=1e-9 * sc)
        t.close(crys.coord_trans(cl[0], old=one, new=cel[0]), cf[0], 'numpy cart->frac', rtol=1e-8, atol=1e-9 * sc)
        t.close(_flib.frac2cart(cfl[0], cel[0]), cart[0], 'flib.frac2cart', atol=1e-9 * sc)
        t.close(_flib.cart2frac(cl[0], cel[0]), cf[0], 'flib.cart2frac', rtol=1e-8, atol=1e-9 * sc)
        t.close(_flib.frac2cart_traj(cfl, cel), cart, 'flib.frac2cart_traj', atol=1e-9 * sc)
        t.close(_flib.cart2frac_traj(cl, cel), cf, 'flib.cart2frac_traj', rtol=1e-8, atol=1e-9 * sc)
    t.nontrivial()
    t.label('varcell' if case['varcell'] else 'fixed')


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 6), nstep=sizes(2, 4, 60, 300)), quick=40, thorough=400)
def documented_defaults(case, t):
    """coordinates are along the last axis, time along the first; the input is
    copied; a missing old/new basis is the cartesian one"""
    r = rng(case)
    old, new = make_cell(case['kind'], case['seed']), make_cell('random', case['seed'] + 1)
    x = r.normal(size=(case['n'], 3))
    t.nontrivial()
    t.defaults(crys.coord_trans, (x,), dict(old=old, new=new), copy=True, axis=-1)
    t.defaults(crys.coord_trans, (r.normal(size=(3, 3)),), dict(old=old, new=new), axis=-1)
    x3 = r.normal(size=(case['nstep'], case['n'], 3))
    olds = np.array([make_cell('random', case['seed'] + i) for i in range(case['nstep'])])
    news = np.array([make_cell(case['kind'], case['seed'] + 9 + i) for i in range(case['nstep'])])
    t.defaults(crys.coord_trans3d, (x3,), dict(old=olds, new=news), axis=-1, timeaxis=0, copy=True)
