from pv import *
from gen import *
from pwtools.crys import Structure, Trajectory

RULE = ('random subsets of the redundant inputs of structures/trajectories (coords cart/frac/both/none x cell '
        'vectors/constants/both/none, 2d or 3d cell, with or without symbols, stress, velocity, ...) and random access '
        'histories; non-trivial if at least four quantities had to be derived and were compared with the model')

given = dict(seed=seeds, kind=cellkinds, n=sizes(1, 6, 40, 110), nstep=sizes(1, 6, 40, 110, 300), varcell=bools,
             coords=pick(['cart', 'frac', 'frac', 'cart', 'both', 'none']),
             cell=pick(['cell', 'cell', 'cc', 'both', 'none']),
             cellform=pick(['full', '1', 'slim']),
             opt=st.lists(pick(['symbols', 'symbols', 'forces', 'stress', 'etot', 'velocity', 'ekin', 'temperature',
                                'timestep', 'timestep', 'pressure', 'volume']), max_size=7, unique=True),
             nosym=bools)


def build(case, traj, full=False):
    if case['coords'] == 'both' and case['cell'] == 'cc':
        case = dict(case, coords='frac')      # orientation not defined: inputs would contradict each other
    if traj:
        raw = raw_traj(case['seed'], case['kind'], case['n'], case['nstep'], case['varcell'])
        r = rng(case, 9)
        raw['pressure'] = r.normal(size=case['nstep'])
        raw['volume'] = r.uniform(10, 20, case['nstep'])
    else:
        raw = raw_struct(case['seed'], case['kind'], case['n'])
        raw['pressure'], raw['volume'] = 3.5, 47.11
    kw = {}
    if case['coords'] in ('cart', 'both'):
        kw['coords'] = raw['coords']
    if case['coords'] in ('frac', 'both'):
        kw['coords_frac'] = raw['coords_frac']
    if case['cell'] in ('cell', 'both'):
        kw['cell'] = raw['cell']
    if case['cell'] in ('cc', 'both'):
        kw['cryst_const'] = raw['cryst_const']
    form = 'full' if full or case['coords'] == 'none' else case['cellform']
    if traj and form != 'full' and not case['varcell']:
        for k in ('cell', 'cryst_const'):
            if k in kw:
                kw[k] = kw[k][:1] if form == '1' else kw[k][0]
    for k in case['opt']:
        if k in raw:
            kw[k] = raw[k]
    if not case['nosym'] or case['seed'] % 3:
        kw['symbols'] = raw['symbols']
    else:
        kw.pop('symbols', None)
    return kw


def derived(exp, kw):
    return sum(v is not None and k not in kw for k, v in exp.items())


@sub(D(traj=bools, **given), quick=400, thorough=8000)
def all_at_once(case, t):
    traj = case['traj']
    kw = build(case, traj)
    exp = model(kw, traj)
    with t.unchanged(kw=kw):
        obj = (Trajectory if traj else Structure)(**kw)
    names = TRAJ_ATTRS if traj else STRUCT_ATTRS
    t.eq(sorted(obj.attr_lst), sorted(names), 'attr_lst')
    compare(t, obj, exp, names)
    if exp['cell'] is not None and exp['coords'] is not None:
        t.close(obj.coords, np.einsum('...ij,...jk->...ik', obj.coords_frac, obj.cell), 'coords = coords_frac . cell',
                rtol=1e-7, atol=1e-6)
        t.close(np.einsum('...ij,...kj->...ik', obj.cell, obj.cell),
                np.einsum('...ij,...kj->...ik', exp['cell'], exp['cell']), 'metric', rtol=1e-6, atol=1e-6)
    for k in names:      # getters return the same as the attributes
        t.eq(getattr(obj, 'get_' + k)(), getattr(obj, k), 'get_%s' % k) if k != 'time' else None
    t.ok(obj.is_traj is traj and obj.is_struct is (not traj), 'is_traj/is_struct')
    t.nontrivial(derived(exp, kw) >= 4)
    t.label('traj' if traj else 'struct', 'coords:' + case['coords'], 'cell:' + case['cell'])


@sub(D(traj=bools, hist=st.lists(st.tuples(ints(0, 40), pick(['try', 'get', 'check', 'set', 'lst', 'ret'])), min_size=1, max_size=14),
       finish=bools, **given), quick=400, thorough=8000)
def any_access_order(case, t):
    """lazy access in any order gives the same values as set_all()"""
    traj = case['traj']
    kw = build(case, traj, full=True)
    exp = model(kw, traj)
    names = TRAJ_ATTRS if traj else STRUCT_ATTRS
    obj = (Trajectory if traj else Structure)(set_all_auto=False, **kw)
    for k in names:
        if k not in kw:
            t.ok(getattr(obj, k) is None, '%s set although set_all_auto=False' % k)
    seen = []
    nlazy = 0
    for i, how in case['hist']:
        k = names[i % len(names)]
        if how == 'try':
            obj.try_set_attr(k)
        elif how == 'get':
            v = getattr(obj, 'get_' + k)()
            t.ok((v is None) == (exp[k] is None), 'get_%s() is %s' % (k, short(v)))
            setattr(obj, k, v)
        elif how == 'check':
            t.eq(obj.check_set_attr(k), exp[k] is not None, 'check_set_attr(%s)' % k)
        elif how == 'lst':
            l2 = [k, names[(i * 7 + 3) % len(names)]]
            t.eq(obj.check_set_attr_lst(l2), all(exp[x] is not None for x in l2), 'check_set_attr_lst(%s)' % l2)
        elif how == 'ret':
            v = obj.get_return_attr(k)
            t.ok((v is None) == (exp[k] is None), 'get_return_attr(%s) is %s' % (k, short(v)))
        else:
            obj.set_all(attr_lst=[k]) if False else obj.try_set_attr_lst([k])
        compare(t, obj, exp, [k], 'after %s:' % how)
        nlazy += exp[k] is not None and k not in kw
        seen.append(k)
    compare(t, obj, exp, seen, 'at the end')
    if case['finish']:
        obj.set_all()
        compare(t, obj, exp, names, 'after set_all')
        obj.set_all()
        compare(t, obj, exp, names, 'after another set_all')
    t.nontrivial(nlazy >= 2 or case['finish'] and derived(exp, kw) >= 4)


DROPS = [('coords',), ('coords_frac',), ('cryst_const',), ('volume',), ('coords', 'cryst_const'), ('coords_frac', 'volume'),
         ('symbols_unique', 'order', 'typat', 'ntypat', 'nspecies'), ('znucl', 'mass', 'znucl_unique'), ('pressure',),
         ('natoms',), ('velocity', 'ekin', 'temperature'), ('ekin', 'temperature'), ('temperature',), ('time',), ('nstep',)]


@sub(D(traj=bools, seed=seeds, kind=cellkinds, n=ints(1, 6), nstep=sizes(3, 6, 40, 110), varcell=bools,
       drops=st.lists(ints(0, len(DROPS) - 1), min_size=1, max_size=4), change=pick(['no', 'frac', 'cart', 'cell', 'symbols'])),
     quick=300, thorough=5000)
def drop_and_recompute(case, t):
    """set to None + set_all(): rebuilt from what is left; documented way to update derived data"""
    traj = case['traj']
    raw = raw_traj(case['seed'], case['kind'], case['n'], case['nstep'], case['varcell']) if traj else \
        raw_struct(case['seed'], case['kind'], case['n'])
    kw = {k: raw[k] for k in ('cell', 'coords_frac', 'symbols', 'stress') + (('timestep',) if traj else ())}
    obj = (Trajectory if traj else Structure)(**kw)
    names = TRAJ_ATTRS if traj else STRUCT_ATTRS
    exp = model(kw, traj)
    for i in case['drops']:
        ks = [k for k in DROPS[i] if k in names]
        for k in ks:
            setattr(obj, k, None)
        obj.set_all()
        compare(t, obj, exp, names, 'after dropping %s' % ks)
    r = rng(case, 4)
    ch = case['change']
    trj = ['velocity', 'ekin', 'temperature'] if traj else []
    if ch == 'frac':
        kw['coords_frac'] = kw['coords_frac'] + r.uniform(-.2, .2, kw['coords_frac'].shape)
        obj.coords_frac = kw['coords_frac']
        drop = ['coords'] + trj
    elif ch == 'cart':
        obj.coords = obj.coords + r.uniform(-.2, .2, obj.coords.shape)
        kw.pop('coords_frac')
        kw['coords'] = obj.coords
        drop = ['coords_frac'] + trj
    elif ch == 'cell':
        kw['cell'] = kw['cell'] * 1.25
        obj.cell = kw['cell']
        drop = ['coords', 'cryst_const', 'volume'] + trj
    elif ch == 'symbols':
        kw['symbols'] = rand_symbols(case['seed'] + 1, case['n'])
        obj.symbols = kw['symbols']
        drop = ['symbols_unique', 'order', 'typat', 'ntypat', 'nspecies', 'znucl', 'znucl_unique', 'mass', 'mass_unique']
        drop += ['ekin', 'temperature'] if traj else []
    else:
        drop = []
    for k in drop:
        setattr(obj, k, None)
    obj.set_all()
    compare(t, obj, model(kw, traj), names, 'after changing %s' % ch)
    t.nontrivial()


@sub(D(seed=seeds, n=ints(1, 5), which=pick(['velocity', 'ekin', 'temperature', 'time', 'timestep', 'nstep'])), quick=40, thorough=400)
def traj_only_attributes(case, t):
    raw = raw_struct(case['seed'], 'tric', case['n'])
    s = Structure(coords_frac=raw['coords_frac'], cell=raw['cell'], symbols=raw['symbols'])
    w = case['which']
    t.ok(w not in s.attr_lst, w)
    with t.raises(NotImplementedError, msg='Structure.get_%s' % w):
        getattr(s, 'get_' + w)()
    raw = raw_traj(case['seed'], 'tric', case['n'], 3)
    tr = Trajectory(coords_frac=raw['coords_frac'], cell=raw['cell'], symbols=raw['symbols'])
    for m in ('get_ase_atoms', 'get_fake_ase_atoms', 'get_spglib'):
        with t.raises(NotImplementedError, msg='Trajectory.' + m):
            getattr(tr, m)()
    # cells and coordinates of different length do not belong together
    for m in (2, 4):
        for k in ('coords', 'coords_frac'):
            with t.raises(AssertionError, msg='%d cells, 3 steps' % m):
                Trajectory(symbols=raw['symbols'], cell=np.concatenate([raw['cell']] * 2)[:m], **{k: raw[k]})
    for cls in (Structure, Trajectory):
        with t.raises(AssertionError, msg='unknown attribute name'):
            cls(set_all_auto=False, foo=1, coords=raw['coords'])
    t.nontrivial()


@sub(D(seed=seeds, n=ints(1, 5), nstep=ints(2, 5), traj=bools, ints_=st.lists(pick(['coords', 'coords_frac', 'cell', 'cryst_const', 'forces', 'stress', 'velocity', 'etot']), min_size=1, max_size=6, unique=True),
       units=bools), quick=80, thorough=1200)
def integer_arrays(case, t):
    """input of integer type means the same as floats of the same value"""
    r = rng(case)
    traj, n = case['traj'], case['n']
    ns = case['nstep']
    a0 = r.integers(3, 9, 3)
    pre = (ns,) if traj else ()
    z = case['ints_']
    kw = dict(symbols=rand_symbols(case['seed'], n))
    if 'cell' in z or 'cryst_const' not in z:
        kw['cell'] = np.diag(a0) + np.array([[0, 0, 0], [1, 0, 0], [0, 2, 0]])
        if traj:
            kw['cell'] = np.repeat(kw['cell'][None], ns, 0)
    else:
        cc = np.array(list(a0) + [90, 80, 70])
        kw['cryst_const'] = np.repeat(cc[None], ns, 0) if traj else cc
    kw['coords' if 'coords' in z else 'coords_frac'] = r.integers(0, 9, pre + (n, 3))
    kw['forces'] = r.integers(-5, 5, pre + (n, 3))
    kw['stress'] = r.integers(-5, 5, pre + (3, 3))
    if traj:
        kw['velocity'] = r.integers(-5, 5, pre + (n, 3))
        kw['etot'] = r.integers(-5, 5, ns)
    fl = {k: v.astype(float) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
    mixed = {k: kw[k] if k in z or k in ('symbols',) else fl[k] for k in kw}
    cls = Trajectory if traj else Structure
    ukw = dict(units=dict(length=2.0, energy=0.5, stress=3.0, velocity=0.25, forces=4.0)) if case['units'] else {}
    with t.unchanged(kw=mixed):
        a = cls(**ukw, **mixed)
    b = cls(**ukw, **fl)
    for k in TRAJ_ATTRS if traj else STRUCT_ATTRS:
        x, y = getattr(a, k), getattr(b, k)
        t.eq(x is None, y is None, k)
        if isinstance(y, np.ndarray) and y.dtype.kind == 'f':
            t.close(x, y, '%s of integer and of float input' % k, rtol=1e-12, atol=1e-12)
        elif y is not None:
            t.eq(x, y, k)
    t.nontrivial()
