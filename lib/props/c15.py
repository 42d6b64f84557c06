from pv import *
from gen import *
from scipy.integrate import simpson
from pwtools import pydos, signal

RULE = ('random velocity arrays (4-40 steps, 1-5 atoms), masses, time steps, paddings, windows, areas, both methods; oscillating '
        'trajectories with known frequencies; non-trivial if the spectrum has more than two points')


def ref_welch(n):
    c = 0.5 * (n - 1)
    return np.array([1 - ((i - c) / c)**2 for i in range(n)])


def dft_power(x):
    """|DFT|^2 by the definition; x (N, K)"""
    N = len(x)
    k = np.arange(N)
    W = np.exp(-2j * np.pi * np.outer(k, k) / N)
    return np.abs(W @ x)**2


def ref_pdos(v, dt, m, window, pad, method, mirr):
    v = np.asarray(v, float)
    ns, n = v.shape[:2]
    m = np.ones(n) if m is None else np.asarray(m, float)
    if window:
        v = v * ref_welch(ns)[:, None, None]
    if method == 'direct':
        L = ns + pad
        x = np.concatenate((v, np.zeros((pad, n, 3)))).reshape(L, -1)
        full = (dft_power(x) * np.repeat(m, 3)[None, :]).sum(1)
    else:
        c = np.array([(v[:ns - k] * v[k:] * m[None, :, None]).sum() for k in range(ns)])
        c = c / c[0]
        x = np.concatenate((c[::-1], c[1:])) if mirr else c
        L = len(x)
        full = np.sqrt(dft_power(x[:, None])[:, 0])
    f = np.array([k if k < (L + 1) // 2 else k - L for k in range(L)]) / (L * dt)
    return f, full, L // 2


def check_norm(t, f, d, want, area):
    """d is the reference spectrum scaled to `area`"""
    a = simpson(want, x=f)
    sc = np.abs(want).max()
    if abs(a) < 1e-3 * sc * (f[-1] - f[0]):
        return False
    t.close(simpson(d, x=f), area, 'integral area', rtol=1e-7)
    t.close(d, want * area / a, 'spectrum', rtol=1e-6, atol=1e-9 * abs(area / a) * sc)
    return True


@sub(D(seed=seeds, nstep=sizes(4, 40, 130, 520), n=ints(1, 5), dt=pick([1.0, 0.25, 3.0, 1e-15, 41.3]), mass=pick([None, 'array', 'int']), area=pick([1.0, 3.0, 0.5]), window=pick([True, False, None]),
       npad=pick([None, 0, 1, 2, 3]), tonext=bools, method=pick(['direct', 'vacf']), mirr=bools, full=bools, wrapper=bools, pow2=pick([False, False, True]), order=pick(['C', 'F', 'int', 'view'])), quick=300, thorough=6000)
def definition(case, t):
    r = rng(case)
    if case['pow2'] and case['tonext']:
        # the padded length is a power of two already
        k = case['seed'] % 4
        case = dict(case, nstep=[6, 22, 8, 32][k], npad=[2, 2, 0, 0][k], method='direct')
    ns, n, dt, meth = case['nstep'], case['n'], case['dt'], case['method']
    v = r.normal(size=(ns, n, 3))
    if case['order'] == 'F':
        v = np.asfortranarray(v)
    elif case['order'] == 'int':
        v = r.integers(-9, 9, (ns, n, 3))
        v[:, 0, 0] += np.arange(ns)
    elif case['order'] == 'view':
        v = np.repeat(v, 2, axis=1)[:, ::2][::-1]
    m = dict(array=r.uniform(1, 200, n), int=r.integers(1, 200, n)).get(case['mass'])
    kw = dict(dt=dt, area=case['area'], full_out=case['full'])
    if m is not None:
        kw['m'] = m
    if case['window'] is not None:
        kw['window'] = case['window']
    window = case['window'] is not False
    mirr, pad = False, 0
    if meth == 'direct':
        npad, tonext = case['npad'], case['tonext'] and case['npad'] is not None
        if case['wrapper']:
            f = pydos.direct_pdos
            if npad is None:
                npad, tonext = 1, False      # default of the wrapper
            else:
                kw['npad'] = npad
        else:
            f = pydos.pdos
            kw['npad'] = npad
            kw['method'] = 'direct'
        if tonext:
            kw['pad_tonext' if case['wrapper'] and case['seed'] % 3 == 0 else 'tonext'] = True
        L = ns + (ns - 1) * (npad or 0)
        if tonext:
            L = 1 << (L - 1).bit_length()
        pad = L - ns
    else:
        if case['wrapper']:
            f = pydos.vacf_pdos
            mirr = True
            if case['mirr']:
                mirr = kw['mirr'] = case['seed'] % 2 == 0
        else:
            f = pydos.pdos
            mirr = kw['mirr'] = case['mirr']
            kw['method'] = 'vacf'
            if case['npad'] in (None, 0):
                kw['npad'] = case['npad']
            elif case['npad'] == 1 and case['seed'] % 4 == 0:
                with t.raises(msg='padding of velocities with method=vacf'):
                    pydos.pdos(v, **dict(kw, npad=1))
    with t.unchanged(v=v, m=m):
        out = f(v, **kw)
    if case['seed'] % 5 == 0:
        with t.raises(msg='velocities in two dimensions'):
            f(v[..., :2], **kw)
        with t.raises(msg='one mass too many'):
            f(v, **dict(kw, m=np.ones(n + 1)))
    ff, full, si = ref_pdos(v, dt, m, window, pad, meth, mirr)
    t.eq(len(out), 2 if not case['full'] else (5 if meth == 'direct' else 7), 'number of returned items')
    fa, d = out[:2]
    t.close(fa, ff[:si], 'frequency axis', rtol=1e-9, atol=0)
    t.shape(d, (si,), 'length')
    t.ok((d >= -1e-12 * np.abs(d).max()).all(), 'non-negative')
    good = check_norm(t, fa, d, full[:si], case['area'])
    if case['full']:
        t.close(out[2], ff, 'full_faxis', rtol=1e-9, atol=0)
        t.close(out[3], full, 'full_pdos', rtol=1e-6, atol=1e-8 * full.max())
        t.eq(int(out[4]), si, 'split_idx')
        if meth == 'vacf':
            t.close(np.abs(out[6]), full, 'fft_vacf', rtol=1e-6, atol=1e-8 * full.max())
            t.close(out[5][0], 1.0, 'vacf[0]')
    t.nontrivial(good)
    t.label(meth)


@sub(D(seed=seeds, nstep=sizes(5, 40, 130, 300), n=ints(1, 4), dt=floats(0.1, 10), mass=bools, window=bools), quick=150, thorough=3000)
def methods_agree(case, t):
    r = rng(case)
    v = r.normal(size=(case['nstep'], case['n'], 3))
    kw = dict(dt=case['dt'], window=case['window'])
    if case['mass']:
        kw['m'] = r.uniform(1, 100, case['n'])
    f1, d1 = pydos.direct_pdos(v, **kw)
    f2, d2 = pydos.vacf_pdos(v, **kw)
    t.close(f1, f2, 'frequency axes agree')
    t.close(d1, d2, 'direct with npad=1 == vacf with mirr', rtol=1e-6, atol=1e-8 * np.abs(d1).max())
    # invariances
    Q = rand_rot(case['seed'])
    t.close(pydos.direct_pdos(v @ Q, **kw)[1], d1, 'rotated frame', rtol=1e-6, atol=1e-8 * np.abs(d1).max())
    t.close(pydos.direct_pdos(v * 17.0, **kw)[1], d1, 'velocity unit', rtol=1e-6, atol=1e-8 * np.abs(d1).max())
    t.close(pydos.direct_pdos(v[::-1], **kw)[1], d1, 'time reversal', rtol=1e-6, atol=1e-8 * np.abs(d1).max())
    p = r.permutation(case['n'])
    kp = dict(kw)
    if case['mass']:
        kp['m'] = kw['m'][p]
    t.close(pydos.vacf_pdos(v[:, p], **kp)[1], d1, 'atom order', rtol=1e-6, atol=1e-8 * np.abs(d1).max())
    # zero-mass-weight: an atom at rest contributes nothing
    v0 = np.concatenate((v, np.zeros((len(v), 1, 3))), axis=1)
    if case['mass']:
        kp['m'] = np.append(kw['m'], 50.0)
        t.close(pydos.direct_pdos(v0, **kp)[1], d1, 'atom at rest', rtol=1e-6, atol=1e-8 * np.abs(d1).max())
    t.nontrivial()


@sub(D(seed=seeds, nstep=ints(120, 260), n=ints(1, 3), dt=floats(0.2, 5), kf=floats(0.06, 0.4), ratio=floats(1.5, 2.2), method=pick(['direct', 'vacf']), heavy=bools), quick=60, thorough=800)
def peaks(case, t):
    """harmonic motion of known frequencies shows up where it is, mass decides the weight"""
    r = rng(case)
    ns, n, dt = case['nstep'], case['n'], case['dt']
    f1 = case['kf'] / dt
    f2 = f1 * case['ratio'] if f1 * case['ratio'] * dt < 0.45 else f1 / case['ratio']
    tt = np.arange(ns) * dt
    v = np.zeros((ns, 2, 3))
    v[:, 0, 0] = np.cos(2 * np.pi * f1 * tt + r.uniform(0, 6))
    v[:, 1, 1] = np.cos(2 * np.pi * f2 * tt + r.uniform(0, 6))
    m = np.array([60.0, 1.0]) if case['heavy'] else np.array([1.0, 60.0])
    f, d = (pydos.direct_pdos if case['method'] == 'direct' else pydos.vacf_pdos)(v, dt=dt, m=m)
    df = 1 / (ns * dt)
    fp = f[np.argmax(d)]
    big = f1 if case['heavy'] else f2
    t.ok(abs(fp - big) <= 1.5 * df, 'main peak at %g, expected at %g +- %g' % (fp, big, df))
    # weight of both peaks ~ mass ratio
    w = lambda f0: d[np.abs(f - f0) < 4 * df].sum()
    if abs(f1 - f2) > 12 * df and min(f1, f2) > 8 * df and max(f1, f2) * dt < 0.5 - 8 / ns:
        q = w(f1) / w(f2)
        q0 = m[0] / m[1]
        if case['method'] == 'direct':
            t.ok(0.5 < q / q0 < 2.0, 'weight ratio %g, masses %g' % (q, q0))
        t.nontrivial()


@sub(D(seed=seeds, nstep=ints(6, 20), n=ints(1, 4), method=pick([None, 'direct', 'vacf'])), quick=60, thorough=600)
def documented_defaults(case, t):
    v = rng(case, 9).normal(size=(case['nstep'], case['n'], 3))
    g = {} if case['method'] is None else dict(method=case['method'])
    doc = dict(dt=1.0, m=None, full_out=False, area=1.0, window=True, npad=None, tonext=False, mirr=False)
    if not g:
        doc['method'] = 'direct'
    t.nontrivial()
    t.defaults(pydos.pdos, (v,), g, **doc)
    if case['method'] != 'vacf':
        t.defaults(pydos.pdos, (v,), dict(g, npad=1), tonext=False, mirr=False)
        t.defaults(pydos.pdos, (v,), dict(g, npad=1, tonext=True), mirr=False, window=True)
