from pv import *
from gen import *
from pwtools import crys
from pwtools.crys import Structure, Trajectory

RULE = ('random lists of structures and trajectories with common or differing attribute sets, random mixing parameters, '
        'random edits of copies; non-trivial if at least two frames/objects were combined or a copy was edited')

OPT = ['forces', 'stress', 'etot', 'symbols', 'symbols', 'velocity', 'ekin', 'temperature', 'timestep']
opts = st.lists(pick(OPT), max_size=6, unique=True)
objs = st.lists(D(traj=bools, nstep=sizes(1, 4, 40, 110), opt=opts, coords=pick(['coords', 'coords_frac'])), min_size=1, max_size=5)


def make_obj(case, o, salt):
    if o['traj']:
        raw = raw_traj(case['seed'], case['kind'], case['n'], o['nstep'], True, salt=salt)
    else:
        raw = raw_struct(case['seed'], case['kind'], case['n'], salt=salt)
    kw = {k: raw[k] for k in [o['coords'], 'cell'] + list(o['opt']) if k in raw}
    return (Trajectory if o['traj'] else Structure)(**kw)


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 5), objs=objs, same_opt=bools, again=pick([[], [], [0], [0, 0], [1, 0], [4, 2, 0], [0] * 11]), single=pick([0, 0, 0, 1, 2])), quick=300, thorough=6000)
def concatenate(case, t):
    lst = []
    for i, o in enumerate(case['objs']):
        o = dict(o, opt=case['objs'][0]['opt']) if case['same_opt'] else o
        lst.append(make_obj(case, o, i))
        # objects in single precision among others
        if case['single'] and (i + case['single']) % 2:
            lst[-1].compress(forget=[])
    # the same object more than once; more than a few objects
    lst = [lst[i % len(lst)] for i in case['again']] + lst
    with t.unchanged(lst=lst):
        tr = crys.concatenate(lst if case['seed'] % 2 else tuple(lst))
    frames = [(o, i) for o in lst for i in (range(o.nstep) if o.is_traj else [None])]
    t.ok(tr.is_traj, 'type')
    t.eq(tr.nstep, len(frames), 'nstep')
    t.ok(tr.time is None and tr.timestep is None, 'time axis is not defined after concatenate')
    # a structure made a trajectory has no velocities etc.
    for k in TRAJ_ATTRS:
        if k in ('time', 'timestep', 'nstep'):
            continue
        have = getattr(tr, k)
        ok = all(getattr(o, k, None) is not None for o in lst)
        if not ok:
            t.ok(have is None, '%s set although not all have it' % k)
        elif k in NSTEP_ATTRS:
            want = np.array([getattr(o, k) if i is None else getattr(o, k)[i] for o, i in frames])
            t.eq(have, want, k)
        else:
            t.eq(have, getattr(lst[0], k), k)
    # frame by frame
    for j, (o, i) in enumerate(frames):
        t.eq(tr[j].coords, o.coords if i is None else o.coords[i], 'coords of frame %d' % j)
    t.nontrivial(len(frames) > 1)


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 5), nstep=sizes(1, 8, 40, 110, 300), opt=opts, drop=st.lists(pick(['coords', 'coords_frac', 'volume', 'cell']), max_size=1)),
     quick=150, thorough=3000)
def mean(case, t):
    tr = make_obj(case, dict(traj=True, nstep=case['nstep'], opt=case['opt'], coords='coords_frac'), 0)
    for k in case['drop']:
        setattr(tr, k, None)
    with t.unchanged(tr=tr):
        m = crys.mean(tr)
    t.ok(m.is_struct and type(m) is Structure, 'type')
    for k in TRAJ_ATTRS:
        v = getattr(tr, k)
        if k in ('time', 'timestep', 'nstep'):
            continue
        have = getattr(m, k, None)
        if v is None:
            t.ok(have is None, '%s not None' % k)
        elif k in NSTEP_ATTRS:
            s = np.zeros(v.shape[1:])
            for x in v:
                s = s + x
            t.close(have, s / len(v), 'mean of %s' % k, rtol=1e-9, atol=1e-9)
        else:
            t.eq(have, v, k)
    t.eq(crys.mean(tr[0:1]).cell if tr.cell is not None else None, tr.cell[0] if tr.cell is not None else None, 'mean of one frame')
    # documented: drop coords_frac, recalculate from averaged coords and cell
    if tr.coords is not None and tr.cell is not None:
        tr2 = tr.copy()
        tr2.coords_frac = None
        m2 = crys.mean(tr2)
        m2.set_all()
        t.close(m2.coords_frac @ m2.cell, tr.coords.mean(0), 'recalculated coords_frac', rtol=1e-7, atol=1e-7)
    t.nontrivial(case['nstep'] > 1)


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 5), forces=pick([0, 1, 2, 2]), alpha=st.lists(floats(-1, 2) | pick([0.0, 1.0, 0.5]), min_size=1, max_size=6),
       form=pick(['arr', 'list', 'tuple'])), quick=150, thorough=3000)
def mix(case, t):
    a, b = [raw_struct(case['seed'], case['kind'], case['n'], salt=i) for i in (0, 1)]
    b['symbols'] = a['symbols']
    sa, sb = [Structure(**{k: x[k] for k in ['coords', 'cell', 'symbols'] + (['forces'] if case['forces'] > i else [])})
              for i, x in enumerate((a, b))]
    al = case['alpha']
    arg = np.array(al) if case['form'] == 'arr' else (tuple(al) if case['form'] == 'tuple' else list(al))
    with t.unchanged(sa=sa, sb=sb, arg=arg):
        tr = crys.mix(sa, sb, arg)
    t.eq(tr.nstep, len(al), 'nstep')
    t.eq(tr.symbols, sa.symbols, 'symbols')
    for i, x in enumerate(al):
        for k in ('coords', 'cell') + (('forces',) if case['forces'] == 2 else ()):
            t.close(getattr(tr, k)[i], a[k] + x * (b[k] - a[k]), '%s at alpha=%s' % (k, x), rtol=1e-9, atol=1e-9)
        t.close(tr.coords_frac[i] @ tr.cell[i], tr.coords[i], 'coords_frac', rtol=1e-6, atol=1e-6) if abs(np.linalg.det(tr.cell[i])) > 1 else None
    if case['forces'] < 2:
        t.ok(tr.forces is None, 'forces')
    t.nontrivial(len(al) > 1)


EDITS = ['coords_inplace', 'cell_inplace', 'symbols_append', 'dict', 'mass', 'rebind', 'compress', 'wrap', 'units', 'typat']


@sub(D(seed=seeds, kind=cellkinds, o=D(traj=bools, nstep=ints(1, 4), opt=opts, coords=pick(['coords', 'coords_frac'])), n=ints(1, 5),
       edits=st.lists(st.tuples(pick(EDITS), bools), min_size=1, max_size=5), drop=st.lists(pick(STRUCT_ATTRS), max_size=2),
       units=bools), quick=200, thorough=4000)
def copies_are_equal_and_independent(case, t):
    o = make_obj(case, case['o'], 0)
    for k in case['drop']:
        setattr(o, k, None)
    if case['units']:
        o.units['length'] = 1.5
    c = o.copy()
    t.ok(type(c) is type(o), 'type')
    for k in o.attr_lst:
        t.eq(getattr(c, k), getattr(o, k), 'copy: %s' % k)
    t.eq(c.units, o.units, 'units')
    t.eq(c.units_applied, o.units_applied, 'units_applied')

    def edit(x, e):
        if e == 'coords_inplace' and x.coords_frac is not None:
            x.coords_frac[...] += 1.0
            if x.coords is not None:
                x.coords *= 2
        elif e == 'cell_inplace' and x.cell is not None:
            x.cell *= 1.5
            if x.cryst_const is not None:
                x.cryst_const[..., 0] = -1
        elif e == 'symbols_append' and x.symbols is not None:
            x.symbols[0] = 'Xx'
            x.symbols.append('Q')
        elif e == 'dict':
            if x.nspecies is not None:
                x.nspecies['Q'] = 99
            if x.order is not None:
                x.order['Q'] = 99
        elif e == 'mass' and x.mass is not None:
            x.mass[:] = -1
        elif e == 'rebind':
            x.volume = None
            x.symbols = ['Z']
        elif e == 'compress':
            x.compress()
        elif e == 'wrap' and x.coords_frac is not None and x.cell is not None:
            crys.pbc_wrap_coords(x.coords_frac, copy=False)
            if x.coords is not None:
                x.coords[...] = 0
        elif e == 'units':
            x.units['energy'] = 7
        elif e == 'typat' and x.typat is not None:
            x.typat[0] = 77
    for e, which in case['edits']:
        a, b = (o, c) if which else (c, o)
        with t.unchanged('editing a copy (%s)' % e, other=b):
            edit(a, e)
    t.nontrivial()


@sub(D(seed=seeds, kind=cellkinds, o=D(traj=bools, nstep=ints(1, 4), opt=opts, coords=pick(['coords', 'coords_frac'])), n=ints(1, 5),
       forget=st.none() | st.lists(pick(STRUCT_ATTRS), max_size=4, unique=True), dtype=pick([None, 'float32', 'float16', 'float64']), cp=bools),
     quick=150, thorough=2500)
def compress(case, t):
    o = make_obj(case, case['o'], 0)
    kw = {}
    if case['forget'] is not None:
        kw['forget'] = list(case['forget'])
    if case['dtype']:
        kw['dtype'] = getattr(np, case['dtype'])
    ref = o.copy()
    c = crys.compress(o, copy=case['cp'], **kw)
    if case['cp']:
        t.eq(o, ref, 'compress(copy=True) modified the input')
    else:
        t.ok(c is o, 'copy=False works in place')
    forget = case['forget'] if case['forget'] is not None else ['forces', 'stress', 'coords', 'cryst_const']
    t.eq(kw.get('forget'), case['forget'], 'the list of names of the caller')
    dt = np.dtype(case['dtype'] or 'float32')
    for k in o.attr_lst:
        v, w = getattr(ref, k), getattr(c, k)
        if k in forget:
            t.ok(w is None, '%s not removed' % k)
        elif isinstance(v, np.ndarray) and v.dtype.kind == 'f':
            t.ok(w.dtype == dt, '%s: dtype %s' % (k, w.dtype))
            with np.errstate(all='ignore'):
                t.eq(w, v.astype(dt), k)
        else:
            t.eq(w, v, k)
    if case['dtype'] is None and case['forget'] is None and case['o']['nstep']:
        c.set_all()       # redundant attrs come back (single precision)
        t.close(c.coords, ref.coords, 'coords recomputed from compressed', rtol=1e-4, atol=1e-4)
        t.close(c.cryst_const, ref.cryst_const, 'cryst_const recomputed', rtol=1e-3, atol=1e-2)
    t.nontrivial()


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 5), nstep=sizes(1, 5, 40, 110), opt=opts, coords=pick(['coords', 'coords_frac']), one=bools), quick=120, thorough=2000)
def struct_to_trajectory(case, t):
    s = make_obj(case, dict(traj=False, nstep=1, opt=case['opt'], coords=case['coords']), 0)
    with t.unchanged(s=s):
        tr = crys.struct2traj(s) if case['one'] else s.get_traj(case['nstep'])
    n = 1 if case['one'] else case['nstep']
    t.eq(tr.nstep, n, 'nstep')
    for k in STRUCT_ATTRS:
        v = getattr(s, k)
        if k in NSTEP_ATTRS and v is not None:
            t.eq(getattr(tr, k), np.array([v] * n), k)
        else:
            t.eq(getattr(tr, k), v, k)
    t.ok(crys.struct2traj(tr) is tr, 'struct2traj of a Trajectory returns it')
    # quantities which were given and cannot be derived
    w = Structure(coords_frac=s.coords_frac, cell=s.cell, pressure=case['seed'] / 7., etot=-1.5)
    tw = w.get_traj(n)
    t.eq(tw.pressure, np.array([case['seed'] / 7.] * n), 'pressure')
    t.eq(tw.etot, np.array([-1.5] * n), 'etot')
    # independent of the structure
    with t.unchanged(s=s):
        tr.coords[...] = 0
        tr.cell *= 2
        if tr.symbols is not None:
            tr.symbols[0] = 'Q'
    t.nontrivial(n > 1)


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 4), objs=objs), quick=60, thorough=800)
def populated_attrs(case, t):
    lst = [make_obj(case, o, i) for i, o in enumerate(case['objs'])]
    want = None
    for o in lst:
        s = {k for k in o.attr_lst if getattr(o, k) is not None}
        want = s if want is None else want & s
    t.eq(crys.populated_attrs(lst), want, 'populated_attrs')
    t.nontrivial(len(lst) > 1)


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 5), nstep=ints(2, 5)), quick=60, thorough=600)
def documented_defaults(case, t):
    tr = Trajectory(**raw_traj(case['seed'], case['kind'], case['n'], case['nstep']))
    t.nontrivial()
    t.defaults(crys.compress, (tr,), copy=True)
    t.defaults(crys.compress, (tr,), dtype=np.float32, forget=['forces', 'stress', 'coords', 'cryst_const'])


@sub(D(seed=seeds, kind=cellkinds, n=ints(2, 5)), quick=40, thorough=300)
def mix_needs_equal_symbols(case, t):
    a = Structure(**raw_struct(case['seed'], case['kind'], case['n']))
    kw = raw_struct(case['seed'], case['kind'], case['n'], salt=1)
    sy = list(kw['symbols'])
    j = case['seed'] % case['n']
    sy[j] = 'H' if sy[j] == 'Xe' else 'Xe'
    kw['symbols'] = sy
    b = Structure(**kw)
    t.nontrivial()
    with t.raises(msg='mixing structures with different symbols'):
        crys.mix(a, b, [0.0, 0.5, 1.0])
