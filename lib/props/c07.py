from pv import *
from gen import *
from pwtools.crys import Structure, Trajectory

RULE = ('random unit factor dictionaries and attribute subsets for structures and trajectories, followed by random '
        'histories of set_all/copy/slice/get_traj; non-trivial if at least one factor differs from one and touches a given quantity')

UNITS = ['length', 'energy', 'stress', 'forces', 'temperature', 'velocity', 'time']
PU = dict(cell='length', coords='length', etot='energy', ekin='energy', stress='stress', forces='forces',
          temperature='temperature', velocity='velocity', timestep='time')


def convert(kw, units):
    """converted inputs by hand: value * factor, exactly once"""
    out = dict(kw)
    f = lambda u: units.get(u, 1.0)
    for k, u in PU.items():
        if k in out:
            out[k] = np.asarray(out[k]) * f(u) if isinstance(out[k], np.ndarray) else out[k] * f(u)
    if 'cryst_const' in out:
        cc = np.array(out['cryst_const'])
        cc[..., :3] *= f('length')
        out['cryst_const'] = cc
    if 'volume' in out:
        out['volume'] = out['volume'] * f('length')**3
    if 'pressure' in out:
        out['pressure'] = out['pressure'] * f('stress')
    return out


FACS = pick([1.0, 2.0, 1.0004, 0.99999, 1 + 1e-7, 0.529177, 27.2114, 0.1, 1e-4, 3, 1])
ufd = st.dictionaries(pick(UNITS), FACS, max_size=7)
given = dict(seed=seeds, kind=cellkinds, n=sizes(1, 5, 40, 110), nstep=sizes(1, 5, 40, 110, 300), varcell=bools, traj=bools,
             coords=pick(['cart', 'frac', 'both']), cell=pick(['cell', 'cc', 'both']), slim=bools,
             opt=st.lists(pick(['forces', 'stress', 'etot', 'velocity', 'ekin', 'temperature', 'timestep', 'pressure', 'volume']),
                          max_size=9, unique=True), units=ufd)


def inputs(case):
    if case['coords'] == 'both' and case['cell'] == 'cc':
        case = dict(case, coords='frac')
    traj = case['traj']
    raw = raw_traj(case['seed'], case['kind'], case['n'], case['nstep'], case['varcell']) if traj else \
        raw_struct(case['seed'], case['kind'], case['n'])
    r = rng(case, 9)
    raw['pressure'] = r.normal(size=case['nstep']) if traj else 3.5
    raw['volume'] = r.uniform(10, 20, case['nstep']) if traj else 47.11
    names = {'cart': ['coords'], 'frac': ['coords_frac'], 'both': ['coords', 'coords_frac']}[case['coords']]
    names += {'cell': ['cell'], 'cc': ['cryst_const'], 'both': ['cell', 'cryst_const']}[case['cell']]
    kw = {k: raw[k] for k in names + case['opt'] + ['symbols'] if k in raw}
    if traj and case['slim'] and not case['varcell']:
        for k in ('cell', 'cryst_const'):
            if k in kw:
                kw[k] = kw[k][0]
    return kw


def nt(t, kw, units):
    t.nontrivial(any(units.get(u, 1.0) != 1.0 and k in kw for k, u in PU.items()))


@sub(D(hist=st.lists(pick(['set_all', 'copy', 'apply', 'slice', 'frame', 'get_traj', 'cset']), max_size=5), **given),
     quick=400, thorough=8000)
def converted_exactly_once(case, t):
    traj = case['traj']
    kw = inputs(case)
    units = dict(case['units'])
    exp = model(convert(kw, units), traj)
    with t.unchanged(kw=kw, units=units):
        obj = (Trajectory if traj else Structure)(units=units, **kw)
    names = TRAJ_ATTRS if traj else STRUCT_ATTRS
    compare(t, obj, exp, names)
    t.eq(obj.units, {k: units.get(k, 1.0) for k in UNITS}, 'units dict')
    with t.unchanged(kw=kw, obj0=obj):
        pass
    is_traj = traj
    for h in case['hist']:
        if h == 'set_all':
            obj.set_all()
        elif h == 'apply':
            obj.apply_units()
        elif h == 'copy':
            u0 = dict(obj.units)
            obj = obj.copy()
            t.eq(obj.units, u0, 'units of the copy')
        elif h == 'cset':
            obj = obj.copy()
            obj.set_all()
        elif h == 'slice' and is_traj:
            obj = obj[:]
        elif h == 'frame' and is_traj:
            exp = {k: (exp[k][0] if k in NSTEP_ATTRS and exp[k] is not None else exp[k]) for k in STRUCT_ATTRS}
            obj = obj[0]
            is_traj, names = False, STRUCT_ATTRS
        elif h == 'get_traj' and not is_traj:
            obj = obj.get_traj(2)
            exp = {k: (np.array([v] * 2) if k in NSTEP_ATTRS and v is not None else v) for k, v in exp.items()}
            exp = model({k: v for k, v in exp.items() if v is not None}, True)
            is_traj, names = True, TRAJ_ATTRS
        t.ok(obj.is_traj is is_traj, h)
        compare(t, obj, exp, names, 'after %s' % h)
    # frames of a converted trajectory completed later are not converted again
    if is_traj:
        fr = obj[-1]
        fr.coords = None
        fr.set_all()
        t.close(fr.coords, exp['coords'][-1], 'coords of a completed frame', rtol=1e-7, atol=1e-6)
        sl = obj[::1]
        sl.set_all()
        t.close(sl.coords, exp['coords'], 'coords of a completed slice', rtol=1e-7, atol=1e-6)
    nt(t, kw, units)


@sub(D(units2=ufd, **given), quick=150, thorough=2500)
def objects_do_not_share_units(case, t):
    kw = inputs(case)
    cls = Trajectory if case['traj'] else Structure
    a = cls(units=dict(case['units']), **kw)
    b = cls(units=dict(case['units2']), **kw)
    c = cls(**kw)
    names = TRAJ_ATTRS if case['traj'] else STRUCT_ATTRS
    compare(t, c, model(kw, case['traj']), names, 'no units')
    compare(t, b, model(convert(kw, case['units2']), case['traj']), names, 'second')
    compare(t, a, model(convert(kw, case['units']), case['traj']), names, 'first')
    with t.raises(Exception, msg='unknown unit key'):
        cls(units={'lenght': 2.0}, **kw)
    nt(t, kw, {**case['units'], **case['units2']})


@sub(D(**given), quick=100, thorough=2000)
def late_completion(case, t):
    """set_all_auto=False: values stay raw until apply_units()/set_all(), then converted once"""
    kw = inputs(case)
    traj = case['traj']
    cls = Trajectory if traj else Structure
    units = dict(case['units'])
    obj = cls(set_all_auto=False, units=units, **kw)
    for k, v in kw.items():
        t.eq(getattr(obj, k), v, 'raw %s' % k)
    t.ok(not obj.units_applied, 'units_applied')
    # a copy which is completed later, or before the original
    cp = obj.copy()
    if case['seed'] % 2:
        cp = cp.copy()
    cp.set_all()
    compare(t, cp, model(convert(kw, units), traj), TRAJ_ATTRS if traj else STRUCT_ATTRS, 'copy completed')
    for k, v in kw.items():
        t.eq(getattr(obj, k), v, 'raw %s after completing a copy' % k)
    obj.apply_units()
    t.ok(obj.units_applied, 'units_applied')
    conv = convert(kw, units)
    for k, v in conv.items():
        if k != 'symbols':
            t.close(getattr(obj, k), v, 'converted %s' % k)
    obj.apply_units()
    obj.set_all()
    obj.set_all()
    compare(t, obj, model(conv, traj), TRAJ_ATTRS if traj else STRUCT_ATTRS, 'after set_all')
    nt(t, kw, units)
