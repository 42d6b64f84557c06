from pv import *
import gzip, io as _io
from pwtools import arrayio, parse, num

RULE = ('random 1d-3d arrays (axes of length one, all block axes, values over the whole double range incl. nan/inf, int and float, C/F/strided) written and read in all ways, text made of number tables with '
        'random layout; non-trivial if the array has more than one element')
NOTE = 'only non-empty arrays of rank 1-3 (for empty ones readtxt documents that a size-0 array is returned); values are read back as floats, exactly'


def arr(r, shape, typ):
    a = r.normal(size=shape) * 10.0**r.integers(-300, 300, size=shape)
    if typ == 'int':
        return r.integers(-2**52, 2**52, size=shape)
    if typ == 'nan':
        a[r.random(shape) < .3] = np.nan
        a[r.random(shape) < .2] = -np.inf
        a[r.random(shape) < .2] = -0.0
    if typ == 'fortran':
        return np.asfortranarray(a)
    if typ == 'strided':
        return np.repeat(a, 2, axis=0)[::2]
    return a


def exact(t, got, exp, msg):
    t.ok(isinstance(got, np.ndarray), msg + ': no array')
    t.shape(got, exp.shape, msg)
    t.ok(got.dtype == float, msg + ': dtype')
    t.ok(np.array_equal(got, exp.astype(float), equal_nan=True), '%s: %s, expected %s' % (msg, short(got), short(exp)))


dims = st.lists(pick([1, 1, 2, 3, 4, 7]), min_size=1, max_size=3)


@sub(D(seed=seeds, shape=dims, axis=ints(-3, 2), typ=pick(['float', 'int', 'nan', 'fortran', 'strided']), header=bools, src=pick(['name', 'handle', 'stringio', 'gz']), over=bools, pre=bools), quick=500, thorough=8000)
def round_trip(case, t):
    r = rng(case)
    sh = tuple(case['shape'])
    axis = case['axis']
    if len(sh) < 3 or not -3 <= axis < 3:
        axis = [-1, 0][case['seed'] % 2]
    a = arr(r, sh, case['typ'])
    t.nontrivial(a.size > 1)
    t.label('%id' % a.ndim)
    with tmpdir() as d:
        fn = os.path.join(d, 'a.txt')
        if case['pre']:
            open(fn, 'w').write('old\n' * 100)
        with t.unchanged(a=a):
            arrayio.writetxt(fn, a, axis=axis, header=case['header'])
        txt = open(fn).read()
        # independent reading: all numbers in the order of the 2d chunks
        nums = [float(w) for l in txt.split('\n') if not l.startswith('#') for w in l.split()]
        b = np.moveaxis(a, axis, 0) if a.ndim == 3 else a
        t.ok(np.array_equal(nums, b.astype(float).ravel(), equal_nan=True), 'numbers in the file')
        t.ok(('#' in txt) == case['header'], 'header')
        kw = {}
        if not case['header'] or case['over']:
            kw = dict(shape=sh, axis=axis)
        if case['src'] == 'gz':
            fn = fn + '.gz'
            gzip.open(fn, 'wt').write(txt)
        if case['src'] in ('name', 'gz'):
            got = arrayio.readtxt(fn, **kw)
        elif case['src'] == 'handle':
            with open(fn) as fh:
                got = arrayio.readtxt(fh, **kw)
                t.ok(not fh.closed, 'handle stays open')
        else:
            got = arrayio.readtxt(_io.StringIO(txt), **kw)
        exact(t, got, a, 'readtxt')
        t.eq(open(os.path.join(d, 'a.txt')).read(), txt, 'file unchanged')
        # partial overrides combine with the header
        if case['header']:
            exact(t, arrayio.readtxt(fn, shape=sh), a, 'shape given')
            exact(t, arrayio.readtxt(fn, axis=axis), a, 'axis given')
            # what is given wins over the header
            if a.ndim == 3 and a.size:
                ax2 = [0, 1, 2][case['seed'] % 3]
                rows = b.reshape(-1, b.shape[-1])
                n2 = [i for i in range(1, len(rows) + 1) if len(rows) % i == 0]
                n2 = n2[case['seed'] // 7 % len(n2)]
                alt = np.stack(np.split(rows.astype(float), n2), axis=ax2)
                exact(t, arrayio.readtxt(fn, shape=alt.shape, axis=ax2), alt, 'other shape and axis given')
                if b.shape[0] == a.shape[ax2] and np.delete(a.shape, ax2).tolist() == list(b.shape[1:]):
                    exact(t, arrayio.readtxt(fn, axis=ax2), np.moveaxis(b, 0, ax2), 'other axis given')
        else:
            with t.raises(msg='no header, no shape'):
                arrayio.readtxt(fn)


@sub(D(seed=seeds, shape=st.tuples(ints(1, 4), ints(1, 4), ints(1, 4)), ndim=ints(1, 3), axis=ints(0, 2), ncom=pick([0, 1, 5, 19, 20, 21, 40]), com=pick(['#', '@@']), cols=bools, fmt=pick(['%.17g', '%25.16e', '%r'])), quick=300, thorough=5000)
def foreign_files(case, t):
    """text tables of other programs: comments, blank lines, extra columns"""
    r = rng(case)
    sh = tuple(case['shape'])[:case['ndim']]
    a = r.normal(size=sh)
    axis = case['axis'] if case['ndim'] == 3 else -1
    chunks = [np.take(a, i, axis=axis) for i in range(sh[axis])] if case['ndim'] == 3 else [a if a.ndim == 2 else a[:, None]]
    fm = (lambda x: repr(float(x))) if case['fmt'] == '%r' else lambda x: case['fmt'] % x
    c = case['com']
    lines = ['%s comment %i 1.0 2.0' % (c, i) for i in range(case['ncom'])]
    for ch in chunks:
        if r.random() < .3:
            lines.append('')
        for row in ch:
            l = ' '.join(fm(x) for x in row)
            if case['cols']:
                l = 'Al ' + l + ' end'
            lines.append(' ' * int(r.integers(0, 3)) + l)
        if r.random() < .3:
            lines.append(c + ' step 1')
    kw = dict(shape=sh, axis=axis)
    if c == '@@':
        kw['comments'] = '@@'
    if case['cols']:
        nc = chunks[0].shape[1]
        kw['usecols'] = tuple(range(1, nc + 1))
    t.nontrivial(a.size > 1)
    got = arrayio.readtxt(_io.StringIO('\n'.join(lines) + '\n'), **kw)
    exact(t, got, a, 'readtxt')
    # ini-style header with another comment string
    kw.pop('shape'); kw.pop('axis')
    hd = ['%s [array]' % c, '%s shape = %s' % (c, ' '.join(map(str, sh))), '%saxis = %i' % (c, axis)]
    got = arrayio.readtxt(_io.StringIO('\n'.join(hd + [l for l in lines if not l.startswith(c)]) + '\n'), header_comment=c, **kw)
    exact(t, got, a, 'readtxt with header')


@sub(D(shape=st.tuples(ints(1, 3), ints(1, 3), ints(1, 3)), extra=ints(0, 30), blank=st.lists(ints(0, 9), max_size=8)), quick=150, thorough=1000)
def headers(case, t):
    """user comments together with the ini-style header"""
    a = np.arange(float(np.prod(case['shape']))).reshape(case['shape'])
    t.nontrivial(a.size > 1)
    with tmpdir() as d:
        fn = os.path.join(d, 'a')
        arrayio.writetxt(fn, a)
        txt = open(fn).read()
        hl = [l for l in txt.split('\n') if l.startswith('#')]
        big = '\n'.join(hl) + '\n' + '# x = 1\n' * 0 + ''.join('# k%i = 1\n' % i for i in range(case['extra'])) + '\n'.join(l for l in txt.split('\n') if not l.startswith('#'))
        open(fn, 'w').write(big)
        n = len([l for l in big.split('\n') if l.startswith('#')])
        if n <= 20:
            exact(t, arrayio.readtxt(fn), a, 'header')
        else:
            with t.raises(msg='header too long'):
                arrayio.readtxt(fn)
        exact(t, arrayio.readtxt(fn, header_maxlines=50), a, 'header_maxlines')
        # empty lines before and inside the header
        hl2 = list(hl)
        for i in case['blank']:
            hl2.insert(i % (len(hl2) + 1), ' ' * (i % 3))
        open(fn, 'w').write('\n'.join(hl2) + '\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('#')))
        exact(t, arrayio.readtxt(fn), a, 'empty lines in the header')
        for e in ('', '\n\n', '# only\n# comments\n', '#no space\n', '  # indented\n \n#\n'):
            got = arrayio.readtxt(_io.StringIO(e), shape=case['shape'], axis=0)
            t.eq(got.size, 0, 'empty file')


@sub(D(seed=seeds, shape=st.tuples(ints(1, 4), ints(1, 4), ints(1, 4)), axis=ints(-3, 2), bad=bools), quick=150, thorough=2000)
def stacking(case, t):
    r = rng(case)
    sh, ax = tuple(case['shape']), case['axis']
    a = r.integers(0, 100, size=sh)
    b = np.concatenate([np.take(a, i, axis=ax) for i in range(sh[ax])], axis=0)
    t.nontrivial(sh[ax] > 1)
    if case['bad']:
        with t.raises(AssertionError, msg='wrong number of rows'):
            arrayio.arr2d_to_3d(b[:-1] if len(b) > 1 else np.concatenate([b, b]), sh, axis=ax)
    else:
        if ax < -1:
            ax += 3
        with t.unchanged(b=b):
            got = arrayio.arr2d_to_3d(b, sh, axis=ax)
        t.eq(got.tolist(), a.tolist(), 'arr2d_to_3d')
        t.ok(got.dtype == b.dtype, 'dtype')
    for x in (np.zeros((2,) * 4), np.zeros((1,) * 5)):
        with tmpdir() as d:
            with t.raises(AssertionError, msg='rank > 3'):
                arrayio.writetxt(os.path.join(d, 'x'), x)


@sub(D(seed=seeds, n=sizes(0, 6, 60, 300), m=ints(1, 5), k=ints(1, 4), typ=pick(['float', 'int'])), quick=300, thorough=4000)
def program_output(case, t):
    """helpers which turn grep/awk output into arrays"""
    r = rng(case)
    n, m, k = case['n'], case['m'], case['k']
    isint = case['typ'] == 'int'
    a = r.integers(-99, 99, size=(n, k, m)) if isint else r.normal(size=(n, k, m)) * 10.0**r.integers(-5, 5)
    f = str if isint else lambda x: '%.16e' % x if r.random() < .5 else repr(float(x))
    sep = lambda: ' ' * int(r.integers(1, 4))
    row = lambda x: (sep() if r.random() < .5 else '') + sep().join(f(v) for v in x)
    txt = '\n'.join(row(x) for ch in a for x in ch) + ('\n' if r.random() < .8 else '')
    t.nontrivial(n * k > 1)
    dt = int if isint else float
    kw = dict(dtype=dt) if isint else {}
    for e in ('', ' \n \n'):
        t.ok(parse.traj_from_txt(e, shape=(0, k, m)) is None and parse.arr1d_from_txt(e) is None and parse.arr2d_from_txt(e) is None and
             parse.int_from_txt(e) is None and parse.float_from_txt(e) is None, 'no text: None')
        t.eq(parse.nstep_from_txt(e), 0, 'no steps')
    if n == 0:
        return
    got = parse.traj_from_txt(txt, shape=(n, k, m), **kw)
    t.ok(got.dtype == dt and got.tolist() == a.tolist(), 'traj_from_txt')
    got = parse.arr2d_from_txt(txt, **kw)
    t.ok(got.dtype == dt, 'dtype')
    t.eq(got.ravel().tolist(), a.ravel().tolist(), 'arr2d_from_txt')
    t.eq(got.ndim, 2, 'rank')
    if m > 1 or n * k == 1:
        t.shape(got, (n * k, m), 'arr2d_from_txt')
    txt = '\n'.join(f(x) for x in a.ravel())
    got = parse.arr1d_from_txt(txt, **kw)
    t.ok(got.dtype == dt and got.tolist() == a.ravel().tolist(), 'arr1d_from_txt')
    i = int(a.ravel()[0])
    t.eq(parse.int_from_txt(' %i \n' % i), i, 'int_from_txt')
    t.eq(parse.nstep_from_txt(' %i\n' % abs(i)), abs(i), 'nstep_from_txt')
    t.eq(parse.float_from_txt(' %.16e\n' % a.ravel()[0]), float(a.ravel()[0]), 'float_from_txt')
    with t.raises(msg='shape and text disagree'):
        parse.traj_from_txt(' '.join(f(x) for x in a.ravel()), shape=(n + 1, k, m))
    with t.raises(msg='text which is no number'):
        parse.arr2d_from_txt('1.0 abc\n')
    lst = [None if r.random() < .3 else np.zeros((int(r.integers(0, 5)), int(r.integers(1, 4)))) for _ in range(4)]
    for ax in (0, 1):
        t.eq(parse.axis_lens(lst, axis=ax), [0 if x is None else x.shape[ax] for x in lst], 'axis_lens')
