from pv import *
from gen import *
from scipy import signal as ss
from pwtools import signal, num

RULE = ('random signals of rank 1-3 and 1-40 points (odd/even/prime), axes, paddings, filter specifications and multi-peak data; '
        'non-trivial if the transformed axis has more than one point')


def dft_def(x, axis):
    N = x.shape[axis]
    k = np.arange(N)
    W = np.exp(-2j * np.pi * (np.outer(k, k) % N) / N)
    return np.moveaxis(np.tensordot(W, np.moveaxis(x, axis, 0), axes=(1, 0)), 0, axis)


@sub(D(seed=seeds, n=sizes(1, 40, 130, 300, 520), cplx=bools, intd=bools, dt=floats(1e-3, 100)), quick=200, thorough=4000)
def transforms_1d(case, t):
    r = rng(case)
    n = case['n']
    a = r.normal(size=n)
    if case['cplx']:
        a = a + 1j * r.normal(size=n)
    elif case['intd']:
        a = r.integers(-99, 99, n)
    want = dft_def(a, 0)
    sc = 1e-9 * max(np.abs(a).sum(), 1)
    with t.unchanged(a=a):
        t.close(signal.dft(a, method='loop'), want, 'dft loop', atol=sc)
        t.close(signal.dft(a), want, 'dft', atol=sc)
        t.close(signal.dft(a, method='matmul'), want, 'dft matmul', atol=sc)
        t.close(signal.fft_1d_loop(a), want, 'fft_1d_loop', atol=sc)
        f, y = signal.ezfft(a, dt=case['dt'])
    h = n // 2
    t.close(y, want[:h], 'ezfft', atol=sc)
    t.close(f, np.arange(h) / (n * case['dt']), 'ezfft frequencies', rtol=1e-9, atol=0)
    if n > 1:
        t.close(signal.ezfft(a)[0], np.arange(h) / n, 'ezfft dt=1')
    with t.raises(ValueError, msg='illegal method'):
        signal.dft(a, method='xyz')
    t.nontrivial(n > 1)


@sub(D(seed=seeds, shape=st.lists(ints(1, 7), min_size=1, max_size=4), axis=ints(-4, 3), cplx=bools, default=bools, order=pick(['C', 'F', 'view'])), quick=200, thorough=4000)
def fft_axis(case, t):
    r = rng(case)
    nd = len(case['shape'])
    ax = case['axis']
    if not -nd <= ax < nd:
        ax %= nd
    a = r.normal(size=case['shape'])
    if case['cplx']:
        a = a + 1j * r.normal(size=case['shape'])
    if case['order'] == 'F':
        a = np.asfortranarray(a)
    elif case['order'] == 'view':
        a = a[::-1]
    with t.unchanged(a=a):
        y = signal.fft_1d_loop(a) if case['default'] else signal.fft_1d_loop(a, axis=ax)
    t.close(y, dft_def(a, -1 if case['default'] else ax), 'fft along axis %s' % ax, atol=1e-9 * (np.abs(a).sum() + 1))
    t.nontrivial(a.shape[ax] > 1)


@sub(D(fmax=floats(1e-3, 1e13), n=floats(1, 1e6), mirr=bools), quick=150, thorough=3000)
def fftsample(case, t):
    fmax, mirr = case['fmax'], case['mirr']
    df = fmax / case['n']
    dt, N = signal.fftsample(fmax, df, mode='f', mirr=mirr)
    t.close(dt, 0.5 / fmax, 'dt', rtol=1e-10, atol=0)
    t.close(N * (2 if mirr else 1), 1 / (df * dt), 'N', rtol=1e-10, atol=0)
    f2, d2 = signal.fftsample(dt, N, mode='t', mirr=mirr)
    t.close([f2, d2], [fmax, df], 'f -> t -> f', rtol=1e-10, atol=0)
    t.close(signal.fftsample(fmax, df), signal.fftsample(fmax, df, mode='f', mirr=False), 'defaults')
    # against the axis of a real FFT
    M = max(2, int(case['n']) % 97 + 2)
    f, d = signal.fftsample(0.7, M, mode='t', mirr=mirr)
    ax = np.fft.fftfreq(2 * M if mirr else M, 0.7)
    t.close(d, ax[1] if M > 2 or mirr else abs(ax[1]), 'resolution of the FFT axis')
    if (len(ax)) % 2 == 0:
        t.close(f, abs(ax).max(), 'Nyquist frequency')
    with t.raises(ValueError, msg='illegal mode'):
        signal.fftsample(1., 1., mode='x')
    t.nontrivial()


@sub(D(seed=seeds, shape=st.lists(ints(1, 9), min_size=1, max_size=3), axis=ints(-3, 2), where=pick(['end', 'start', None]), how=pick(['default', 'nadd', 'upto', 'tonext', 'tonext_min', 'tonextF']),
       val=ints(0, 20), dtype=pick(['f8', 'i8', 'c16', 'f4'])), quick=300, thorough=5000)
def pad(case, t):
    nd = len(case['shape'])
    ax = case['axis']
    if not -nd <= ax < nd:
        ax %= nd
    a = np.round(rng(case).normal(size=case['shape']) * 50).astype(case['dtype'])
    n = a.shape[ax]
    how, val = case['how'], case['val']
    kw, N = {}, n
    if how in ('default', 'tonextF'):
        N = 2 * n
        if how == 'tonextF':
            kw['tonext'] = False
    elif how == 'nadd':
        kw['nadd'] = val
        N = n + val
    elif how == 'upto':
        kw['upto'] = N = n + val
    else:
        kw['tonext'] = True
        mn = n
        if how == 'tonext_min':
            kw['tonext_min'] = mn = n + val
        N = 1
        while N < mn:
            N *= 2
    if case['where']:
        kw['where'] = case['where']
    with t.unchanged(a=a):
        b = signal.pad_zeros(a, axis=ax, **kw)
    t.eq(b.shape[ax], N, 'padded length')
    t.eq(b.dtype, a.dtype, 'dtype')
    m, mb = np.moveaxis(a, ax, 0), np.moveaxis(b, ax, 0)
    if case['where'] == 'start':
        t.close(mb[N - n:], m, 'data')
        t.ok((mb[:N - n] == 0).all(), 'zeros')
    else:
        t.close(mb[:n], m, 'data')
        t.ok((mb[n:] == 0).all(), 'zeros')
    if n > 1:
        with t.raises(Exception, msg='upto smaller than the length'):
            signal.pad_zeros(a, axis=ax, upto=n - 1)
    with t.raises(AssertionError, msg='only one of nadd, upto, tonext'):
        signal.pad_zeros(a, nadd=1, upto=30)
    t.nontrivial(N > n)


@sub(D(seed=seeds, shape=st.lists(ints(1, 7), min_size=1, max_size=3), axis=ints(-3, 2), default=bools, intd=bools), quick=150, thorough=3000)
def mirror(case, t):
    nd = len(case['shape'])
    ax = 0 if case['default'] else case['axis']
    if not -nd <= ax < nd:
        ax %= nd
    a = rng(case).normal(size=case['shape'])
    if case['intd']:
        a = np.round(a * 100).astype(int)
    with t.unchanged(a=a):
        b = signal.mirror(a) if case['default'] else signal.mirror(a, axis=ax)
    n = a.shape[ax]
    t.eq(b.shape[ax], 2 * n - 1, 'length')
    m, mb = np.moveaxis(a, ax, 0), np.moveaxis(b, ax, 0)
    t.shape(mb, (2 * n - 1,) + m.shape[1:], 'shape')
    for i in range(-(n - 1), n):
        t.close(mb[n - 1 + i], m[abs(i)], 'mirrored value %d' % i)
    t.nontrivial(n > 1 and ax != 0)


@sub(D(seed=seeds, n=sizes(2, 30, 130, 1100), copy=bools, kind=pick(['float', 'int', '2d']), shift=floats(-100, 100), fac=floats(0.01, 100)), quick=150, thorough=3000)
def scale(case, t):
    r = rng(case)
    x = r.normal(size=case['n']) * case['fac'] + case['shift']
    if case['kind'] == 'int':
        x = r.integers(-50, 50, case['n'])
        x[0], x[1] = -77, 61
    elif case['kind'] == '2d':
        x = x[:, None] * np.array([1.0, 2.0])
    with t.unchanged(x=x):
        y = signal.scale(x) if case['copy'] else signal.scale(x, copy=True)
    t.close(y, (x - x.min()) / (x.max() - x.min()), 'scaled', rtol=1e-8, atol=1e-10)
    t.eq((float(y.min()), float(y.max())), (0.0, 1.0), 'range')
    t.nontrivial()


@sub(D(seed=seeds, nyq=pick([1.0, 50.0, 1e13, 0.02]), mode=pick(['lowpass', 'highpass', 'bandpass', 'bandstop']), how=pick(['kaiser', 'ntaps']), c=floats(0.3, 0.45), ntaps=ints(60, 101), window=pick(['hamming', 'hann', 'blackman', None])),
     quick=80, thorough=1200)
def filters(case, t):
    nyq, mode = case['nyq'], case['mode']
    lo, hi = case['c'] * nyq, (case['c'] + 0.3) * nyq
    cutoff = dict(lowpass=lo, highpass=lo, bandpass=[lo, hi], bandstop=[lo, hi])[mode]
    kw = dict(mode=mode)
    nt = case['ntaps']
    if mode == 'highpass':
        nt |= 1
    if case['how'] == 'ntaps':
        kw['ntaps'] = nt
        if case['window']:
            kw['window'] = case['window']
    else:
        # kaiserord returns any ntaps, highpass needs an odd one
        kw['ripple'] = 60.0
        kw['width'] = 0.1 * nyq
        nk, _ = ss.kaiserord(60.0, 0.1)
        if mode == 'highpass' and nk % 2 == 0:
            kw['width'] = 0.1 * nyq * (nk - 7.95) / (nk - 7.95 + 1)
            if ss.kaiserord(60.0, kw['width'] / nyq)[0] % 2 == 0:
                t.skip('even ntaps')
    if case['seed'] % 3 == 0 and mode == 'lowpass':
        kw.pop('mode')
    with t.unchanged(c=cutoff):
        f = signal.FIRFilter(cutoff, nyq, **kw)
    t.ok(abs(f.w[0]) < 1e-12 and (f.w >= 0).all() and (f.w <= nyq).all() and f.w[-1] > 0.9 * nyq, 'response axis covers [0, nyq)')
    m_ = np.arange(len(f.taps))
    hw = np.array([np.sum(f.taps * np.exp(-1j * np.pi * m_ * w_ / nyq)) for w_ in f.w[::37]])
    t.close(f.h[::37], hw, 'response h(w) on the axis w', rtol=1e-6, atol=1e-9)
    if case['how'] == 'ntaps':
        t.ok(nt <= len(f.taps) == f.ntaps <= nt + 1, 'ntaps')
    passes = lambda fr: dict(lowpass=fr < lo, highpass=fr > lo, bandpass=lo < fr < hi, bandstop=not lo < fr < hi)[mode]
    edges = [lo] if mode in ('lowpass', 'highpass') else [lo, hi]
    # apply to sines: far from the band edges they pass or stop
    n = 400
    tt = np.arange(n) / (2 * nyq)
    for fr in np.array([0.05, 0.15, 0.35, 0.5, 0.65, 0.8, 0.93]) * nyq:
        if min(abs(fr - e) for e in edges) < 0.08 * nyq:
            continue
        x = np.sin(2 * np.pi * fr * tt)
        with t.unchanged(x=x):
            y = f(x)
        t.shape(y, x.shape, 'length')
        a = np.sqrt(2 * (y[f.ntaps:]**2).mean())
        t.ok(abs(a - 1) < 0.06 if passes(fr) else a < 0.06, '%s: amplitude at %g is %g' % (mode, fr / nyq, a))
        hh = abs(f.h[np.argmin(abs(f.w - fr))])
        t.ok(abs(hh - a) < 0.05, 'response h at %g is %g, amplitude %g' % (fr / nyq, hh, a))
    # linear, along any axis
    X = rng(case).normal(size=(3, n))
    Y = f(X)
    t.close(f(X.T, axis=0).T, Y, 'axis', rtol=1e-9, atol=1e-10)
    t.close(f(2 * X[0] - X[1]), 2 * Y[0] - Y[1], 'linear', rtol=1e-7, atol=1e-9)
    ref = np.convolve(X[0], f.taps)[:n]
    t.close(Y[0], ref, 'FIR convolution', rtol=1e-7, atol=1e-9)
    t.nontrivial()
    t.label(mode)


@sub(D(seed=seeds, n=sizes(3, 40, 130, 520, 1100), ymin=pick([None, 'q', 'peak', 'zero']), kind=pick(['random', 'walk', 'int', 'ties']), sc=pick([1.0, 1.0, 1e-14, 1e12])), quick=250, thorough=5000)
def peaks_index(case, t):
    r = rng(case)
    n = case['n']
    y = r.normal(size=n)
    if case['kind'] == 'walk':
        y = np.cumsum(y)
    elif case['kind'] == 'int':
        y = r.permutation(n)
    elif case['kind'] == 'ties':
        y = np.round(y * 1.5)
    if case['kind'] != 'int':
        y = y * case['sc']
    pk = [i for i in range(1, n - 1) if y[i - 1] < y[i] > y[i + 1]]
    ym = None
    if case['ymin'] == 'q':
        ym = float(np.median(y)) + 1e-3 * (case['sc'] if case['kind'] != 'int' else 1)
    elif case['ymin'] == 'zero' and case['kind'] != 'ties':
        ym = 0.0
    elif case['ymin'] == 'peak' and pk:
        ym = float(sorted(y[i] for i in pk)[len(pk) // 2]) - 1e-9 * (case['sc'] if case['kind'] != 'int' else 1)
    with t.unchanged(y=y):
        idx, pos = signal.find_peaks(y) if ym is None else signal.find_peaks(y, ymin=ym)
    t.eq([int(i) for i in idx], [i for i in pk if ym is None or y[i] > ym], 'peaks')
    t.ok(pos is None, 'no positions without x')
    t.nontrivial(len(idx) > 0)


@sub(D(seed=seeds, npk=ints(1, 4), dx=pick([0.02, 0.05]), off=floats(-5, 5), spread=ints(2, 4), k=pick([3, 4, None]), edge=bools, xs=pick([1.0, 1.0, 1e-15, 1e-13, 1e-6, 1e4, 1e13]), ys=pick([1.0, 1.0, 1e-12, 1e-6, 1e6, 1e12])), quick=80, thorough=1500)
def peaks_position(case, t):
    """refined positions of well separated gaussians"""
    r = rng(case)
    dx, npk, off, ys = case['dx'] * case['xs'], case['npk'], case['off'] * case['xs'], case['ys']
    s = 5 * dx
    c = np.cumsum(r.uniform(10, 16, npk)) * s
    if case['edge']:
        c = c - c[0] + 1.45 * dx          # first peak right at the left end
    a = r.uniform(0.5, 2, npk)
    x = np.arange(0, c[-1] + 10 * s, dx)
    y = sum(a[i] * np.exp(-0.5 * ((x - c[i]) / s)**2) for i in range(npk)) * ys
    x = x + off
    kw = dict(spread=case['spread'])
    if case['k']:
        kw['k'] = case['k']
        if 2 * case['spread'] + 1 <= case['k'] + 1:
            kw['spread'] = 3
    with t.unchanged(x=x, y=y):
        idx, pos = signal.find_peaks(y, x, ymin=0.1 * ys, **kw)
    t.eq(len(idx), npk, 'number of peaks')
    if case['edge']:
        t.close(pos, c + off, 'positions', rtol=0, atol=0.3 * dx)
    else:
        t.close(pos, c + off, 'positions', rtol=0, atol=0.05 * dx)
    t.close(x[idx], pos, 'index and position', rtol=0, atol=0.51 * dx)
    # 2*spread+1 points around the peak are used
    y2 = y.copy()
    for i in idx:
        for j in (i - kw['spread'] - 1, i + kw['spread'] + 1):
            if j >= 0:
                y2[j] *= 0.93
    i2, p2 = signal.find_peaks(y2, x, ymin=0.1 * ys, **kw)
    if list(i2) == list(idx):
        t.close(p2, pos, 'points outside of the window do not matter', rtol=1e-12, atol=1e-9 * dx)
    t.nontrivial()


@sub(D(seed=seeds, n=ints(8, 40), m=ints(2, 5)), quick=60, thorough=600)
def documented_defaults(case, t):
    r = rng(case, 9)
    y = r.normal(size=case['n'])
    yy = r.normal(size=(case['n'], case['m']))
    t.nontrivial()
    t.defaults(signal.ezfft, (y,), dt=1.0)
    t.defaults(signal.dft, (y,), method='loop')
    t.defaults(signal.fftsample, (10.0, 0.5), mode='f', mirr=False)
    t.defaults(signal.fft_1d_loop, (yy,), axis=-1)
    for m in ('loop', 'matmul'):
        t.independent('dft', signal.dft, y, method=m)
    for kw in (dict(mirr=True), dict(mode='t')):
        t.independent('fftsample', signal.fftsample, 10.0 if 'mirr' in kw else .5, .5, **kw)
    t.independent('ezfft', signal.ezfft, y, dt=.2)
    t.defaults(signal.pad_zeros, (yy,), dict(nadd=3), axis=0, where='end', upto=None, tonext=None, tonext_min=None)
    t.defaults(signal.pad_zeros, (yy,), dict(tonext=True), tonext_min=None, axis=0, where='end')
    t.defaults(signal.pad_zeros, (yy,), dict(upto=case['n'] + 3), axis=0, where='end')
    t.defaults(signal.mirror, (yy,), axis=0)
    t.defaults(signal.scale, (y,), copy=True)
    f = signal.FIRFilter(cutoff=10.0, nyq=50.0, ntaps=11)
    g = signal.FIRFilter(cutoff=10.0, nyq=50.0, ntaps=11, window='hamming', mode='lowpass', ripple=None, width=None)
    t.eq(f.taps, g.taps, 'FIRFilter with the documented defaults')
    t.independent('FIRFilter', f, yy[:, 0].repeat(12))
    x = np.arange(120 + case['n']) * .02
    bumps = sum(np.exp(-(x - c)**2 / .02) * (1 + .3 * (x - c)) for c in (.7 + case['n'] * .003, 1.7 + .013 * case['m']))
    t.defaults(signal.find_peaks, (bumps, x), dict(ymin=.3), k=3, spread=2)
    t.defaults(signal.find_peaks, (bumps,), x=None, ymin=None, k=3, spread=2)
