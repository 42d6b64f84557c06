from pv import *
from gen import *
from pwtools import crys, signal, pydos, num
from pwtools.crys import Trajectory

RULE = ('random signals of 1-40 points and velocity arrays (1-14 steps, 1-5 atoms; C/F order, views, ints, float32), all methods; '
        'non-trivial if the correlation has more than one point and a non-zero value at lag 0')


def ref_acorr(v):
    v = [float(x) for x in v]
    n = len(v)
    return np.array([math.fsum(v[j] * v[j + k] for j in range(n - k)) for k in range(n)])


def arrange(x, order):
    if order == 'F':
        return np.asfortranarray(x)
    if order == 'view':
        y = np.concatenate((x, x), axis=-1)[..., ::-1]
        return y[..., x.shape[-1]:][..., ::-1] if False else np.ascontiguousarray(x[::-1])[::-1]
    if order == 'strided':
        y = np.repeat(x, 2, axis=0)
        return y[::2]
    if order == 'f32':
        return x.astype('float32')
    if order == 'int':
        return np.round(x * 5).astype(int)
    return x


@sub(D(seed=seeds, n=sizes(1, 40, 130, 520, 1030), order=pick(['C', 'view', 'strided', 'int', 'f32']), scale=pick([1.0, 1e-3, 1e3]), offset=pick([0.0, 10.0]), norm=pick([True, False, None]),
       kind=pick(['random', 'delta', 'const', 'osc', 'zeroend'])), quick=250, thorough=5000)
def acorr(case, t):
    n = case['n']
    r = rng(case)
    v = r.normal(size=n)
    if case['kind'] == 'delta':
        v = np.zeros(n)
        v[r.integers(n)] = 2.0
    elif case['kind'] == 'const':
        v = np.full(n, 1.5)
    elif case['kind'] == 'osc':
        v = np.cos(np.arange(n) * r.uniform(0.1, 3))
    elif case['kind'] == 'zeroend':
        v[0] = v[-1] = 0
    v = arrange(v * case['scale'] + case['offset'], case['order'])
    c = ref_acorr(v)
    if c[0] == 0:
        t.skip('zero signal')
    norm = case['norm'] is not False
    want = c / c[0] if norm else c
    kw = {} if case['norm'] is None else dict(norm=case['norm'])
    eps = 1e-4 if case['order'] == 'f32' else 1e-9
    for m in (None, 1, 2, 3, 4, 5, 6, 7):
        with t.unchanged(v=v):
            got = signal.acorr(v, **kw) if m is None else signal.acorr(v, method=m, **kw)
        t.close(got, want, 'acorr method=%s' % m, rtol=eps, atol=eps * abs(want[0]))
    with t.raises(ValueError, msg='unknown method'):
        signal.acorr(v, method=99)
    t.nontrivial(n > 1)


@sub(D(seed=seeds, nstep=sizes(1, 14, 60, 130), n=sizes(1, 5, 20, 40), order=pick(['C', 'F', 'view', 'strided', 'int', 'f32']), mass=pick([None, 'array', 'traj', 'int', 'ones']), nthreads=pick([None, 1, 2, 4, 8]), same=bools),
     quick=250, thorough=5000)
def vacf(case, t):
    r = rng(case)
    ns, n = case['nstep'], case['n']
    v = arrange(r.normal(size=(ns, n, 3)) * (0.01 if case['order'] in 'CF' else 1), case['order'])
    if not (v != 0).any():
        t.skip('zero velocities')
    m = dict(array=r.uniform(0.5, 200, n), int=r.integers(1, 200, n), ones=np.ones(n)).get(case['mass'])
    if case['mass'] == 'traj':
        sy = rand_symbols(case["seed"], n)
        tr = Trajectory(symbols=sy, velocity=v, coords=np.zeros((ns, n, 3)))
        m = tr.mass
        t.close(m, mass_of(sy), 'mass', rtol=2e-3)
    w = np.ones(n) if m is None else m.astype(float)
    want = np.zeros(ns)
    for i in range(n):
        for x in range(3):
            want += w[i] * ref_acorr(v[:, i, x])
    eps = 1e-4 if case['order'] == 'f32' else 1e-8
    if want[0] == 0:
        t.skip('zero')
    want = want / want[0]
    for name, f in [('pyvacf %i' % k, lambda k=k: pydos.pyvacf(v, m=m, method=k)) for k in (1, 2, 3)] + \
                   [('fvacf %i' % k, lambda k=k: pydos.fvacf(v, m=m, method=k)) for k in (1, 2)] + \
                   [('fvacf nthreads', lambda: pydos.fvacf(v, m=m, nthreads=case['nthreads'])), ('pyvacf', lambda: pydos.pyvacf(v, m=m)), ('fvacf', lambda: pydos.fvacf(v, m=m))]:
        with t.unchanged(v=v, m=m):
            c = f()
        t.close(c, want, name, rtol=eps, atol=eps)
    t.ok((np.abs(want) <= 1 + 1e-9).all(), '|c| <= 1')
    # equal weights drop out
    t.close(pydos.fvacf(v, m=np.full(n, 7.0)), pydos.fvacf(v), 'equal masses', rtol=eps, atol=eps)
    if m is not None:
        t.close(pydos.fvacf(v, m=3.0 * m), want, 'only mass ratios matter', rtol=eps, atol=eps)
    # atom order
    p = r.permutation(n)
    t.close(pydos.fvacf(v[:, p], m=None if m is None else m[p]), want, 'atom order', rtol=eps, atol=eps)
    with t.raises(ValueError, msg='unknown method'):
        pydos.pyvacf(v, method=77)
    t.nontrivial(ns > 1)
    t.label('threads=%s' % case['nthreads'])


@sub(D(seed=seeds, nstep=ints(1, 12), n=ints(1, 3), threads=pick(['1', '2', '3', '8'])), quick=60, thorough=600)
def vacf_env_threads(case, t):
    """OMP_NUM_THREADS is honoured and has no influence on the result"""
    v = rng(case).normal(size=(case['nstep'], case['n'], 3))
    a = pydos.pyvacf(v)
    old = os.environ.get('OMP_NUM_THREADS')
    os.environ['OMP_NUM_THREADS'] = case['threads']
    try:
        b = pydos.fvacf(v)
        b2 = pydos.fvacf(v, method=1)
    finally:
        if old is None:
            del os.environ['OMP_NUM_THREADS']
        else:
            os.environ['OMP_NUM_THREADS'] = old
    t.close(b, a, 'fvacf with OMP_NUM_THREADS', rtol=1e-9, atol=1e-9)
    t.close(b2, a, 'fvacf method=1 with OMP_NUM_THREADS', rtol=1e-9, atol=1e-9)
    t.nontrivial(case['nstep'] > 1)


@sub(D(seed=seeds, nstep=ints(2, 12), n=ints(1, 4)), quick=60, thorough=600)
def documented_defaults(case, t):
    r = rng(case, 9)
    v = r.normal(size=(case['nstep'], case['n'], 3))
    t.nontrivial()
    t.defaults(signal.acorr, (v[:, 0, 0],), method=7, norm=True)
    for m in range(1, 8):
        t.independent('acorr', signal.acorr, v[:, 0, 0], method=m)
    t.defaults(pydos.pyvacf, (v,), m=None, method=3)
    t.defaults(pydos.fvacf, (v,), m=None, method=2, nthreads=None)
