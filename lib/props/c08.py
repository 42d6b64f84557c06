from pv import *
from gen import *
from pwtools.crys import Structure, Trajectory

RULE = ('random trajectories (random attribute subsets, some attributes shorter than nstep), indices, slices with any '
        'sign and step, and histories of complete/abandoned/nested iteration, indexing and slicing; non-trivial if at '
        'least one frame was selected from a trajectory of two or more and all its attributes compared')


def make(case):
    raw = raw_traj(case['seed'], case['kind'], case['n'], case['nstep'], True)
    opt = case['opt']
    kw = {k: raw[k] for k in ['coords_frac', 'cell', 'symbols'] + [o for o in opt if o in raw]}
    if case['nocell']:
        kw = dict({k: v for k, v in kw.items() if k not in ('cell', 'coords_frac')}, coords=raw['coords'])
    tr = Trajectory(**kw)
    for k in case['drop'] if not case['nocell'] else []:
        setattr(tr, k, None)
    return tr


base = dict(seed=seeds, nocell=pick([False] * 5 + [True]), kind=cellkinds, n=sizes(1, 5, 40, 110), nstep=sizes(1, 9, 40, 110, 260),
            opt=st.lists(pick(['forces', 'stress', 'etot', 'velocity', 'ekin', 'temperature', 'timestep', 'timestep']), max_size=6, unique=True),
            drop=st.lists(pick(['coords', 'pressure', 'volume', 'mass', 'time', 'cryst_const', 'typat']), max_size=2, unique=True))


def frame_check(t, tr, i, st_, msg):
    """st_ has to be the structure of time step i (0 <= i < nstep)"""
    t.ok(type(st_) is Structure and st_.is_struct and not st_.is_traj, '%s: type' % msg)
    for k in TRAJ_ATTRS:
        v = getattr(tr, k)
        if k in TRAJ_ONLY:
            t.ok(getattr(st_, k, None) is None, '%s: %s in a Structure' % (msg, k))
        elif v is None:
            t.ok(getattr(st_, k) is None, '%s: %s is not None' % (msg, k))
        elif k in NSTEP_ATTRS:
            t.eq(np.asarray(getattr(st_, k)), np.asarray(v[i]), '%s: %s' % (msg, k))
        else:
            t.eq(getattr(st_, k), v, '%s: %s' % (msg, k))


def slice_check(t, tr, sl, sub_, msg):
    idx = list(range(tr.nstep))[sl]
    t.ok(type(sub_) is Trajectory and sub_.is_traj, '%s: type' % msg)
    t.eq(sub_.nstep, len(idx), '%s: nstep' % msg)
    for k in TRAJ_ATTRS:
        v = getattr(tr, k)
        w = getattr(sub_, k)
        if k == 'nstep':
            continue
        if v is None:
            t.ok(w is None, '%s: %s is not None' % (msg, k))
        elif k == 'timestep':
            t.close(w, v * (1 if sl.step is None else sl.step), '%s: timestep' % msg)
        elif k in NSTEP_ATTRS:
            t.eq(w, np.array([v[i] for i in idx]).reshape((len(idx),) + v.shape[1:]), '%s: %s' % (msg, k))
        else:
            t.eq(w, v, '%s: %s' % (msg, k))
    if tr.time is not None and tr.timestep is not None and len(idx) > 1:
        t.close(np.diff(sub_.time), np.full(len(idx) - 1, sub_.timestep), '%s: time axis fits to timestep' % msg)


none_or = lambda lo, hi: st.none() | ints(lo, hi)
slices = st.tuples(none_or(-11, 11), none_or(-11, 11), st.sampled_from([None, 1, 2, 3, -1, -2, 5]))


@sub(D(idx=ints(-9, 8), npint=bools, **base), quick=200, thorough=4000)
def integer_index(case, t):
    tr = make(case)
    n = tr.nstep
    i = case['idx']
    arg = np.int64(i) if case['npint'] else i
    if not -n <= i < n:
        with t.raises(IndexError, msg='index %d of %d' % (i, n)):
            tr[arg]
        return
    with t.unchanged(tr=tr):
        s = tr[arg]
    frame_check(t, tr, i % n, s, 'tr[%d]' % i)
    s.set_all()        # completing it must not break anything
    if tr.cell is not None:
        t.close(s.coords, tr.coords_frac[i] @ tr.cell[i], 'coords after set_all', rtol=1e-8, atol=1e-7)
    t.nontrivial(n > 1)


@sub(D(sl=slices, **base), quick=300, thorough=6000)
def slice_index(case, t):
    tr = make(case)
    sl = slice(*case['sl'])
    with t.unchanged(tr=tr):
        sub_ = tr[sl]
    slice_check(t, tr, sl, sub_, 'tr[%s:%s:%s]' % tuple(case['sl']))
    idx = list(range(tr.nstep))[sl]
    for j, s in enumerate(sub_):
        frame_check(t, tr, idx[j], s, 'frame %d of slice' % j)
    t.nontrivial(0 < len(idx) < tr.nstep)


@sub(D(sls=st.lists(slices, min_size=2, max_size=3), **base), quick=120, thorough=2000)
def slice_of_slice(case, t):
    tr = make(case)
    cur, idx, fac = tr, list(range(tr.nstep)), 1.0
    for s in case['sls']:
        sl = slice(*s)
        cur = cur[sl]
        idx = idx[sl]
        fac *= 1 if sl.step is None else sl.step
        t.eq(cur.nstep, len(idx), 'nstep')
        if not idx:
            break
    for k in ('coords_frac', 'cell', 'time', 'etot', 'velocity'):
        v = getattr(tr, k)
        if v is not None:
            t.eq(getattr(cur, k), v[idx], k)
    if tr.timestep is not None:
        t.close(cur.timestep, tr.timestep * fac, 'timestep')
    t.nontrivial(0 < len(idx) < tr.nstep)


op = st.tuples(pick(['full', 'partial', 'nested', 'zip', 'list', 'index', 'slice', 'enum', 'next', 'own']), ints(0, 9), slices)


@sub(D(ops=st.lists(op, min_size=1, max_size=6), **base), quick=200, thorough=4000)
def iteration_history(case, t):
    """every loop over the trajectory yields all frames in order, whatever happened before"""
    tr = make(case)
    n = tr.nstep
    ref = [tr[i] for i in range(n)]

    def all_frames(lst, what):
        t.eq(len(lst), n, '%s: number of frames' % what)
        for i, s in enumerate(lst):
            frame_check(t, tr, i, s, '%s: frame %d' % (what, i))
    loops = 0
    for what, k, sl in case['ops']:
        if what == 'full':
            out = []
            for s in tr:
                out.append(s)
            all_frames(out, 'loop')
        elif what == 'partial':
            for i, s in enumerate(tr):
                frame_check(t, tr, i, s, 'abandoned loop: frame %d' % i)
                if i >= k:
                    break
        elif what == 'nested':
            outer = []
            for s in tr:
                outer.append(s)
                if len(outer) > n:
                    break
                all_frames(list(tr), 'inner loop')
            all_frames(outer, 'outer loop')
        elif what == 'zip':
            pairs = list(zip(tr, tr))
            all_frames([a for a, b in pairs], 'zip first')
            all_frames([b for a, b in pairs], 'zip second')
        elif what == 'list':
            all_frames(list(tr), 'list()')
        elif what == 'enum':
            out = [s for i, s in enumerate(tr) if i < 1000]
            all_frames(out, 'comprehension')
        elif what == 'own':         # next() on the object itself, until it is used up: starts again afterwards
            out = []
            for i in range(n):
                out.append(next(tr))
            all_frames(out, 'next(tr)')
            with t.raises(StopIteration, msg='next(tr) after the last frame'):
                next(tr)
        elif what == 'next':
            it = iter(tr)
            frame_check(t, tr, 0, next(it), 'next(iter())')
            continue
        elif what == 'index':
            frame_check(t, tr, k % n, tr[k % n], 'index')
            continue
        elif what == 'slice':
            slice_check(t, tr, slice(*sl), tr[slice(*sl)], 'slice')
            continue
        loops += 1
    all_frames(list(tr), 'last loop')
    t.nontrivial(n > 1 and loops)


@sub(D(**base), quick=80, thorough=1000)
def time_dependent_attr_with_other_length_is_dropped(case, t):
    tr = make(case)
    n = tr.nstep
    r = rng(case, 5)
    # e.g. parsed quantities printed less often than coords: cannot be assigned to frames
    tr.etot = r.normal(size=n + 1 + case['seed'] % 3)
    tr.forces = r.normal(size=(n + 2, tr.natoms, 3))
    s = tr[n - 1]
    sub_ = tr[0:n]
    for o in (s, sub_):
        t.ok(o.etot is None and o.forces is None, 'attribute of other length was assigned to frames')
    t.eq(sub_.coords_frac, tr.coords_frac, 'coords_frac')
    t.eq(sub_.symbols, tr.symbols, 'symbols')
    t.nontrivial()
