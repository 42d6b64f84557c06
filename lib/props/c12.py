from pv import *
from gen import *
from pwtools import crys, num
from pwtools.crys import Structure, Trajectory

RULE = ('random trajectories of 1-12 steps and 1-5 atoms (constant/variable cell, integer coords), reference indices, axes '
        'and norms; non-trivial if the compared quantity is not identically zero')


@sub(D(seed=seeds, shape=st.lists(ints(1, 4), max_size=2), nstep=sizes(3, 12, 50, 130, 1030), dt=floats(0.01, 50), endpoints=pick([None, True, False]),
       kind=pick(['float', 'float', 'int', 'linear', 'F', 'f32'])), quick=300, thorough=6000)
def velocity_traj(case, t):
    r = rng(case)
    n, dt = case['nstep'], case['dt']
    x = r.normal(size=[n] + case['shape']) * 3
    if case['kind'] == 'int':
        x = r.integers(-50, 50, [n] + case['shape'])
    elif case['kind'] == 'F':
        x = np.asfortranarray(x)
    elif case['kind'] == 'linear':
        v0 = r.normal(size=case['shape'])
        x = np.array([v0 * i * dt + 3.0 for i in range(n)])
    elif case['kind'] == 'f32':
        x = x.astype('float32')
    kw = {} if case['endpoints'] is None else dict(endpoints=case['endpoints'])
    with t.unchanged(x=x):
        v = crys.velocity_traj(x, dt=dt, **kw)
    full = central_diff(x.astype(float), dt)
    rt = 1e-9 if case['kind'] != 'f32' else 1e-3
    at = 1e-9 if case['kind'] != 'f32' else 1e-4 / dt
    t.close(v, full if case['endpoints'] is not False else full[1:-1], 'central differences', rtol=rt, atol=at)
    if case['kind'] == 'linear':
        t.close(v, np.broadcast_to(v0, v.shape), 'constant velocity', rtol=1e-7, atol=1e-6)
    t.nontrivial(bool((full != 0).any()))


@sub(D(seed=seeds, kind=cellkinds, n=sizes(1, 5, 40, 110), nstep=sizes(1, 9, 50, 130, 600), dt=floats(0.05, 20), varcell=bools, shift=bools, perm=bools, tscale=floats(0.2, 4)),
     quick=250, thorough=5000)
def thermo_from_coords(case, t):
    n, ns, dt = case['n'], case['nstep'], case['dt']
    raw = raw_traj(case['seed'], case['kind'], n, ns, case['varcell'])
    mk = lambda **k: Trajectory(**{**dict(coords=raw['coords'], cell=raw['cell'], symbols=raw['symbols'], timestep=dt), **k})
    tr = mk()
    exp = model(dict(coords=raw['coords'], cell=raw['cell'], symbols=raw['symbols'], timestep=dt), True)
    compare(t, tr, exp, ['velocity', 'time', 'timestep', 'nstep', 'ekin', 'temperature', 'mass'])
    if ns < 3:
        t.ok(tr.velocity is None and tr.ekin is None and tr.temperature is None, 'no velocity for < 3 steps')
        t.close(tr.time, np.arange(ns) * dt, 'time')
        return
    # independent units: 1 amu (Ang/fs)^2 = 103.642696 eV
    v = tr.velocity
    t.close(tr.ekin, 0.5 * 103.6426965 * (v**2 * tr.mass[None, :, None]).sum((1, 2)), 'ekin', rtol=1e-5, atol=1e-9)
    t.close(tr.temperature, 2 * tr.ekin / (3 * n * 8.617333262e-5), 'temperature', rtol=1e-5, atol=1e-9)
    # symmetries
    if case['shift']:
        t2 = mk(coords=raw['coords'] + np.array([1.5, -2, 7.0]))
        t.close(t2.velocity, v, 'velocity does not depend on the origin', rtol=1e-6, atol=1e-8 / dt)
    if case['perm']:
        p = rng(case, 8).permutation(n)
        t2 = mk(coords=raw['coords'][:, p], symbols=[raw['symbols'][i] for i in p])
        t.close(t2.velocity, v[:, p], 'atom order')
        t.close(t2.ekin, tr.ekin, 'ekin does not depend on the atom order', rtol=1e-9)
    a = case['tscale']
    t2 = mk(timestep=dt * a)
    t.close(t2.velocity, v / a, 'velocity ~ 1/timestep', rtol=1e-8, atol=1e-12)
    t.close(t2.temperature, tr.temperature / a**2, 'temperature ~ 1/timestep^2', rtol=1e-8, atol=1e-12)
    t.nontrivial()


@sub(D(seed=seeds, n=sizes(1, 5, 40, 110), nstep=sizes(1, 9, 50, 130, 600), ref=ints(-9, 8), asint=bools), quick=250, thorough=5000)
def rmsd(case, t):
    n, ns, ref = case['n'], case['nstep'], case['ref']
    r = rng(case)
    co = r.normal(size=(ns, n, 3)) * 4
    if not -ns <= ref < ns:
        ref = ref % ns
    tr = Trajectory(coords=co)
    with t.unchanged(tr=tr):
        d = crys.rmsd(tr, ref_idx=ref) if ref or case['asint'] else crys.rmsd(tr)
    want = np.array([np.sqrt(((co[i] - co[ref])**2).sum() / n) for i in range(ns)])
    t.close(d, want, 'rmsd', rtol=1e-9, atol=1e-10)
    t.eq(float(d[ref]), 0.0, 'rmsd of the reference')
    # invariant under shift and atom order
    p = r.permutation(n)
    t.close(crys.rmsd(Trajectory(coords=co[:, p] + 3.0), ref_idx=ref), want, 'shift, permutation', rtol=1e-7, atol=1e-7)
    t.nontrivial(ns > 1)


@sub(D(seed=seeds, shape=st.lists(ints(1, 5), min_size=1, max_size=3), nitems=pick(['all', 'num', 'none']), scale=pick([1.0, 1e-3, 1e4])),
     quick=200, thorough=3000)
def rms(case, t):
    x = rng(case).normal(size=case['shape']) * case['scale']
    s = math.fsum((x.ravel()**2).tolist())
    with t.unchanged(x=x):
        if case['nitems'] == 'none':
            v, N = num.rms(x), x.size
        elif case['nitems'] == 'all':
            v, N = num.rms(x, nitems='all'), x.size
        else:
            N = 2.5
            v = num.rms(x, nitems=N)
    t.close(v, math.sqrt(s / N), 'rms', rtol=1e-9, atol=0)
    t.nontrivial()


@sub(D(seed=seeds, shape=st.lists(ints(1, 5), min_size=3, max_size=3), axis=ints(-1, 2), nitems=pick(['all', 'num', 'none'])), quick=200, thorough=3000)
def rms3d(case, t):
    x = rng(case).normal(size=case['shape'])
    ax = case['axis']
    kw = {} if case['nitems'] == 'none' else dict(nitems='all' if case['nitems'] == 'all' else 2.5)
    with t.unchanged(x=x):
        v = num.rms3d(x, axis=ax, **kw)
    m = np.moveaxis(x, ax, 0)
    N = 2.5 if case['nitems'] == 'num' else m[0].size
    t.close(v, np.array([np.sqrt((y**2).sum() / N) for y in m]), 'rms3d', rtol=1e-9, atol=0)
    t.nontrivial()


@sub(D(seed=seeds, n=ints(1, 4), nstep=ints(3, 8)), quick=60, thorough=600)
def documented_defaults(case, t):
    x = rng(case, 9).normal(size=(case['nstep'], case['n'], 3))
    tr = Trajectory(coords=x, symbols=['H'] * case['n'])
    t.nontrivial()
    t.defaults(crys.velocity_traj, (x,), dt=1.0, axis=0, endpoints=True)
    t.defaults(crys.rmsd, (tr,), ref_idx=0)
    t.defaults(num.rms3d, (x,), axis=0, nitems='all')
    t.defaults(num.rms, (x,), nitems='all')
