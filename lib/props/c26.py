from pv import *
import itertools, configparser, io as _io
from pwtools import common, comb

RULE = ('random numbers in many text notations (Fortran exponents d/D/e, kinds, blanks), slices, booleans in any case, nested sequences of mixed types, arrays; each conversion compared with the definition; '
        'non-trivial if the value is not trivial/empty')

SP = ['', ' ', '  ']


@sub(D(m=st.floats(min_value=-1e6, max_value=1e6, allow_nan=False), digs=ints(0, 16), e=ints(-300, 300), ch=pick(['d', 'D', 'e', 'E', None]), sign=pick(['', '+']), es=pick(['', '+']), pad=pick([0, 2, 3]),
       a=pick(SP), b=pick(SP), kind=pick(['', '_10', '_dp'])), quick=600, thorough=10000)
def fortran_floats(case, t):
    m = '%.*f' % (case['digs'], case['m'])
    if case['digs'] == 0 and case['e'] % 2:
        m += '.'
    if case['m'] >= 0 and not m.startswith('-'):
        m = case['sign'] + m
    if m.replace('-', '').startswith('0.') and case['e'] % 3 == 0 and case['digs'] > 0:
        m = m.replace('0.', '.', 1)
    e = case['e']
    t.nontrivial(case['m'] != 0)
    if case['ch'] is None:
        s, ref = m, m
    else:
        es = ('-' if e < 0 else case['es']) + str(abs(e)).zfill(case['pad'])
        s, ref = m + case['ch'] + es, m + 'e' + es
        if case['ch'] in 'dD':
            s += case['kind']
    got = common.ffloat(case['a'] + s + case['b'])
    t.ok(type(got) is float, 'type')
    t.ok(got == float(ref), 'ffloat(%r) = %r, expected %r' % (s, got, float(ref)))


@sub(D(s=pick(['', ' ', 'abc', 'd', '1.0.0', '--1', '1e', 'x1d5', 'd5', '1.0dd5', 'five', '0x10d', '1d', '1,5', 'def']), x=pick([1, 1.5, None, ['1']])), quick=60, thorough=200)
def ffloat_rejects(case, t):
    t.nontrivial()
    with t.raises(ValueError, msg='ffloat(%r)' % case['s']):
        common.ffloat(case['s'])
    with t.raises(msg='ffloat(%r)' % (case['x'],)):
        common.ffloat(case['x'])


idx = st.one_of(st.none(), st.integers(-12, 12))


@sub(D(a=idx, b=idx, c=st.one_of(st.none(), st.integers(-4, 4).filter(bool)), form=pick(['int', 'two', 'three']), sp=pick(SP), n=ints(0, 11)), quick=500, thorough=6000)
def slices(case, t):
    f = lambda x: '' if x is None else str(x)
    x = list(range(case['n']))
    a, b, c = case['a'], case['b'], case['c']
    sp = case['sp']
    if case['form'] == 'int':
        if a is None:
            t.skip()
        s, exp = sp + str(a) + sp, a
    elif case['form'] == 'two':
        s, exp = f(a) + sp + ':' + sp + f(b), slice(a, b)
    else:
        s, exp = f(a) + ':' + f(b) + sp + ':' + f(c), slice(a, b, c)
    got = common.toslice(s)
    t.ok(got == exp and type(got) is type(exp), 'toslice(%r) = %r' % (s, got))
    if isinstance(exp, slice):
        y = x[exp]
        t.eq(np.array(x)[got].tolist(), y, 'indexing')
        t.nontrivial(len(y) > 0)
    with t.raises(msg='input must be a string'):
        common.toslice(exp)


TRUE = ['.true.', '1', 'true', 'on', 'yes']
FALSE = ['.false.', '0', 'false', 'off', 'no']


@sub(D(seed=seeds, bad=st.one_of(st.text(max_size=6), pick(['2', '', 'true ', 'y', 'n', 't', '.t.', 'ja', 'nan', '-1', '10'])), i=ints(-5, 5)), quick=300, thorough=4000)
def booleans(case, t):
    r = rng(case)
    t.nontrivial()
    for lst, v in ((TRUE, True), (FALSE, False)):
        s = lst[int(r.integers(5))]
        s2 = ''.join(ch.upper() if r.random() < .5 else ch for ch in s)
        t.ok(common.tobool(s2) is v, 'tobool(%r)' % s2)
    t.ok(common.tobool(case['i']) is (case['i'] != 0), 'tobool(%i)' % case['i'])
    t.ok(common.tobool(True) is True and common.tobool(False) is False, 'bool')
    if case['bad'].lower() not in TRUE + FALSE:
        with t.raises(msg='tobool(%r)' % case['bad']):
            common.tobool(case['bad'])
    for x in (None, 1.0, 0.0, [], [1], b'1'):
        with t.raises(msg='tobool(%r)' % (x,)):
            common.tobool(x)


atom = st.one_of(st.integers(), st.floats(allow_nan=False), st.text(max_size=5), st.none(), st.booleans())
nested = st.recursive(atom, lambda x: st.lists(x, max_size=4), max_leaves=20)


def flat(x):
    out = []
    for y in x:
        if isinstance(y, (list, tuple)):
            out += flat(y)
        else:
            out.append(y)
    return out


def tup(x, r):
    """random sequence types"""
    if isinstance(x, list):
        y = [tup(z, r) for z in x]
        k = r.random()
        if k < .3:
            return tuple(y)
        if k < .4 and y and all(type(z) is int and abs(z) < 2**60 for z in y):
            return np.array(y)
        if k < .5:
            return (z for z in y)
        return y
    return x


@sub(D(seed=seeds, x=st.lists(nested, max_size=5)), quick=400, thorough=6000)
def sequences(case, t):
    r = rng(case)
    x = case['x']
    exp = flat(x)
    t.nontrivial(len(exp) > 1)
    chk = lambda got: len(got) == len(exp) and all((a == b) and (type(a) is type(b) or isinstance(a, np.integer)) for a, b in zip(got, exp))
    t.ok(chk(common.flatten(tup(x, r))), 'flatten')
    t.ok(chk(list(common.iflatten(tup(x, r)))), 'iflatten')
    for y in flat(x):
        t.ok(not common.is_seq(y), 'is_seq(%r)' % (y,))
        t.eq(common.asseq(y), [y], 'asseq')
    with open(os.devnull) as fh:
        t.ok(not common.is_seq(fh), 'file')
    t.ok(not common.is_seq(_io.StringIO('a')), 'stream')
    for y in (x, tuple(x), np.arange(3), {}, set(), range(3)):
        t.ok(common.is_seq(y) and common.asseq(y) is y, 'sequence')
    # pop_from_list
    if x:
        k = [int(i) for i in r.permutation(len(x))[:int(r.integers(0, len(x) + 1))]]
        items = [x[i] for i in k]
        with t.unchanged(x=x):
            got = common.pop_from_list(x, items)
        rest = list(x)
        for it in items:
            rest.remove(it)
        t.eq(got, rest, 'pop_from_list')
        got.append(1)
        with t.raises(ValueError, msg='item not in list'):
            common.pop_from_list(x, ['no such item'])


@sub(D(x=st.lists(st.floats(allow_nan=False), max_size=6), i=st.lists(st.integers(), max_size=6), s=st.text(max_size=10), sep=pick([None, ' ', ',', '; ', '\t'])), quick=300, thorough=4000)
def text_of_values(case, t):
    t.nontrivial(len(case['x']) > 0)
    for v in case['x']:
        s = common.frepr(v)
        t.ok(float(s) == v, 'frepr round trip')
        t.eq(s, '%.16e' % v, 'frepr(float)')
        t.eq(common.frepr(np.float64(v)), s, 'frepr(float64)')
        t.eq(common.frepr(v, ffmt='%.3f'), '%.3f' % v, 'ffmt')
        t.ok(common.ffloat(s) == v, 'ffloat(frepr)')
    t.eq(common.frepr(case['s']), case['s'], 'frepr(str)')
    for v in (1, None, True, [1.5, 'a'], (1,), {'a': 1}):
        t.eq(common.frepr(v), repr(v), 'frepr')
    kw = {} if case['sep'] is None else dict(sep=case['sep'])
    for lst, f, b in ((case['i'], str, int), (case['x'], common.frepr, float), (case['x'], repr, float)):
        s = common.seq2str(lst, func=f, **kw)
        t.eq(s, (case['sep'] or ' ').join(f(y) for y in lst), 'seq2str')
        t.eq(common.tup2str(lst, func=f, **kw), s, 'tup2str')
        if lst or case['sep'] is None:
            t.eq(common.str2seq(s, func=b, **kw), lst, 'str2seq')
            t.eq(common.str2tup(s, func=b, **kw), tuple(lst), 'str2tup')
    t.eq(common.str2seq(' '.join(str(y) for y in case['i']) + ' '), case['i'], 'default is int')


@sub(D(seed=seeds, shape=st.one_of(st.tuples(ints(0, 6)), st.tuples(ints(1, 5), ints(1, 5))), typ=pick(['float', 'int', 'list', 'fortran', 'strided']), fmt=pick([None, '%.3f', '%12.5e', '%g', '%i']), eps=pick([None, 1e-3, 0.5, -1.0, 1e-300]), delim=pick([None, ',', ' | '])), quick=400, thorough=6000)
def array_text(case, t):
    r = rng(case)
    sh = tuple(case['shape'])
    a = r.normal(size=sh) * 10.0**r.integers(-20, 5, size=sh)
    a[r.random(sh) < .2] *= -1
    if case['typ'] == 'int':
        a = r.integers(-5, 6, size=sh)
    arg = a.tolist() if case['typ'] == 'list' else np.asfortranarray(a) if case['typ'] == 'fortran' else np.repeat(a, 2, axis=-1)[..., ::2] if case['typ'] == 'strided' else a
    kw = {k: case[k] for k in ('fmt', 'eps', 'delim') if case[k] is not None}
    eps = case['eps']
    if eps is None:
        from pwtools.num import EPS as eps
        t.ok(0 < eps < 1e-10, 'default eps is tiny')
    with t.unchanged(arg=arg):
        s = common.str_arr(arg, **kw)
    fmt, dl = kw.get('fmt', '%.16e'), kw.get('delim', '    ')
    row = lambda x: dl.join(fmt % (0 * v if abs(v) <= eps else v) for v in x)
    norm = lambda x: x
    exp = row(a) if a.ndim == 1 else '\n'.join(row(x) for x in a)
    z = lambda x: x.replace('-0.0000000000000000e+00', '0.0000000000000000e+00').replace('-0.000', '0.000').replace('-0', '0').replace(' ', '')
    t.eq(z(s), z(exp), 'text')
    t.nontrivial(a.size > 1)
    if case['fmt'] is None and case['delim'] is None and a.size:
        b = np.array([[float(w) for w in l.split()] for l in s.split('\n')])
        t.close(b.reshape(sh), np.where(np.abs(a) <= eps, 0, a), 'values', rtol=0, atol=0)
    for x in (np.zeros((2, 2, 2)), np.float64(3.0)):
        with t.raises(ValueError, msg='rank'):
            common.str_arr(x)
    # fix_eps
    if case['eps'] and case['eps'] > 0:
        exp = np.where(np.abs(a) <= eps, 0, a)
        b = a.copy()
        with t.unchanged(b=b):
            c = common.fix_eps(b, eps=eps)
        t.close(c, exp, 'fix_eps', rtol=0, atol=0)
        c = common.fix_eps(b, eps=eps, copy=False)
        t.ok(c is b, 'copy=False')
        t.close(b, exp, 'fix_eps in place', rtol=0, atol=0)
    else:
        with t.raises(msg='eps must be > 0'):
            common.fix_eps(a, eps=-1.0)


vals = st.one_of(st.integers(-9, 9), st.text(max_size=3), st.floats(-2, 2), st.none())


@sub(D(seed=seeds, lists=st.lists(st.lists(vals, min_size=0, max_size=4), min_size=1, max_size=4), link=st.lists(bools, min_size=4, max_size=4)), quick=400, thorough=6000)
def combinations(case, t):
    r = rng(case)
    L = case['lists']
    obj = object()
    # linked lists: entries are pairs
    full = []
    for k, x in enumerate(L):
        if case['link'][k]:
            full.append([[v, [i, 'x%i' % i]] if case['seed'] % 2 else [v, i] for i, v in enumerate(x)])
        else:
            full.append(list(x) + ([obj] if case['seed'] % 3 == 0 else []))
    idx = [()]
    for x in full:
        idx = [p + (i,) for p in idx for i in range(len(x))]
    exp = [[full[k][i] for k, i in enumerate(p)] for p in idx]
    arg = lambda: [tuple(tuple(e) if isinstance(e, list) else e for e in x) if r.random() < .3 else zip(*zip(*x)) if case['link'][k] and x and r.random() < .5 else list(x) for k, x in enumerate(full)]
    got = comb.nested_loops(arg())
    t.nontrivial(len(exp) > 1)
    t.eq(type(got), list, 'type')
    lst = lambda x: [lst(y) for y in x] if isinstance(x, (list, tuple)) else x
    t.ok(got == exp and all(type(x) is list for x in got), 'nested_loops: %s, expected %s' % (short(got), short(exp)))
    got = comb.nested_loops(arg(), flatten=True)
    t.ok(got == [flat(x) for x in exp], 'nested_loops(flatten=True)')
    plain = [[1, 2], ['a', 'b', 'c'][:1 + case['seed'] % 3]]
    t.independent('nested_loops', comb.nested_loops, plain)
    if not case['link'][0]:
        t.ok(all(y is z for y, z in zip([x[0] for x in got], [x[0] for x in exp])), 'objects themselves')


@sub(D(seed=seeds, n=sizes(1, 12, 60), m=ints(1, 4), hi=ints(1, 4), what=pick(['row', 'col', None]), typ=pick(['int', 'float', 'list'])), quick=250, thorough=3000)
def unique(case, t):
    r = rng(case)
    a = r.integers(0, case['hi'], size=(case['n'], case['m']))
    if case['typ'] == 'float':
        a = a * 0.1 + (1e-13 * r.integers(0, 2, size=a.shape) if case['seed'] % 2 else 0)
    elif case['seed'] % 2:
        a = a + 10**9
    b = a.T if case['what'] == 'col' else a
    kw = {} if case['what'] is None else dict(what=case['what'])
    arg = b.tolist() if case['typ'] == 'list' else b
    with t.unchanged(arg=arg):
        got = comb.unique2d(arg, **kw)
    seen = []
    for x in a.tolist():
        if x not in seen:
            seen.append(x)
    exp = np.array(seen)
    t.nontrivial(1 < len(seen) < len(a))
    t.close(got, exp.T if case['what'] == 'col' else exp, 'unique2d', rtol=0, atol=0)
    with t.raises(ValueError, msg='illegal what'):
        comb.unique2d(a, 'rows')


@sub(D(dct=st.dictionaries(st.text(alphabet='abcdefg_', min_size=1, max_size=4), st.one_of(vals, st.lists(vals, max_size=3)), max_size=5), name=pick([None, 'Foo'])), quick=100, thorough=1000)
def dicts(case, t):
    d = case['dct']
    t.nontrivial(len(d) > 1)
    s = common.dict2str(d)
    t.eq(s, ''.join('%s: %s\n' % (k, repr(v)) for k, v in d.items()), 'dict2str')
    kw = {} if case['name'] is None else dict(name=case['name'])
    c, c2 = common.dict2class(d, **kw), common.dict2class({'zz': 1}, name='Other')
    t.eq(c.__dict__, d, 'dict2class')
    t.eq(type(c).__name__, case['name'] or 'Dummy', 'class name')
    t.ok(not hasattr(c, 'zz') and c2.zz == 1, 'separate classes')
    c.new = 1
    t.ok('new' not in d, 'dict is not modified')
    info = {'sec%i' % i: {k: common.frepr(v).replace('%', '').replace('\n', ' ') for k, v in d.items()} for i in range(2)}
    cp = configparser.ConfigParser()
    cp2 = common.add_to_config(cp, info)
    t.ok(cp2 is cp, 'returns config')
    t.eq({x: dict(cp.items(x)) for x in cp.sections()}, info, 'add_to_config')
    buf = _io.StringIO()
    with t.raises(msg='section exists'):
        common.add_to_config(cp, info)
    common.assert_cond(True)
    with t.raises(AssertionError, msg='assert_cond'):
        common.assert_cond(False, 'x')
