"""Framework shared by the property modules (lib/props/cNN.py).

A property module defines RULE (text), optional ASSUMPTIONS, and sub-checks:

    @sub(strategy, quick=200, thorough=4000)
    def name(case, t): ...

`strategy` makes JSON-able cases (dict); the function runs pwtools on it and
compares with an explicit oracle through the tracer `t` (t.ok, t.close, ...).
Any exception other than environmental ones is a violation.
"""
import copy, json, math, os, sys, shutil, tempfile, contextlib
try:
    import hypothesis
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    try:
        import hypothesis
    except ImportError:
        import glob, zipfile
        d = os.path.join(os.environ.get('PWV_SCRATCH', '/tmp'), 'hyp')
        os.makedirs(d, exist_ok=True)
        for pat in ('hypothesis-*cp312*.whl', 'hypothesis-*.whl', 'sortedcontainers-*.whl', 'attrs-*.whl'):
            for w in glob.glob('/opt/veriftools/wheels/' + pat):
                zipfile.ZipFile(w).extractall(d)
        sys.path.append(d)
        import hypothesis
import numpy as np
from hypothesis import strategies as st
# Hypothesis also makes new cases by repeating parts of earlier ones. With few
# choices per case this leaves many combinations out, so: independent cases.
try:
    from hypothesis.internal.conjecture import engine as _engine
    if hasattr(_engine.ConjectureRunner, 'generate_mutations_from'):
        _engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
except Exception:
    pass

SUBS = {}


class Violation(AssertionError):
    pass


class Skip(Exception):
    """case outside the documented domain"""


class Sub:
    def __init__(self, func, strategy, quick, thorough, examples, budget):
        self.func, self.strategy = func, strategy
        self.name = func.__name__
        self.quick, self.thorough = quick, thorough
        self.examples = examples
        self.budget = budget


def sub(strategy, quick=150, thorough=3000, examples=(), budget=(25, 300)):
    def deco(f):
        s = Sub(f, strategy, quick, thorough, list(examples), budget)
        assert s.name not in SUBS, s.name
        SUBS[s.name] = s
        return f
    return deco


class T:
    """tracer handed to the check functions"""
    def __init__(self):
        self.nt = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def skip(self, why=''):
        raise Skip(why)

    def fail(self, msg):
        raise Violation(msg)

    def ok(self, cond, msg='condition is false'):
        if not cond:
            raise Violation(msg)

    def eq(self, a, b, msg=''):
        """equal values of equal structure (python objects / exact arrays)"""
        if not same(a, b):
            raise Violation('%s: %s != %s' % (msg, short(a), short(b)))

    def close(self, a, b, msg='', rtol=1e-9, atol=1e-10):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation('%s: shapes differ: %s != %s' % (msg, a.shape, b.shape))
        if a.size == 0:
            return
        a = a.astype(complex) if np.iscomplexobj(a) else a.astype(float)
        b = b.astype(complex) if np.iscomplexobj(b) else b.astype(float)
        with np.errstate(all='ignore'):
            good = (a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))
        if not good.all():
            i = np.argwhere(~good)[0]
            raise Violation('%s: values differ at %s: got %r, expected %r (%d of %d differ)\n got: %s\n exp: %s' % (
                msg, i.tolist(), a[tuple(i)], b[tuple(i)], int((~good).sum()), a.size, short(a), short(b)))

    def shape(self, a, shape, msg=''):
        if np.shape(a) != tuple(shape):
            raise Violation('%s: shape %s, expected %s' % (msg, np.shape(a), tuple(shape)))

    @contextlib.contextmanager
    def raises(self, *excs, msg=''):
        try:
            yield
        except excs or (Exception,):
            return
        raise Violation('%s: no exception was raised' % msg)

    def defaults(self, func, args=(), given=None, conv=None, /, **documented):
        """leaving an optional argument out is the same as giving its documented
        default: same result, same effect on the arguments"""
        name = getattr(func, '__name__', str(func))
        run = lambda kw: (lambda a: (lambda r: (conv(r) if conv else r, a))(func(*a, **kw)))(copy.deepcopy(args))
        left_out = run(copy.deepcopy(given or {}))
        # a result which is changed by the caller doesn't change later results
        again = run(copy.deepcopy(given or {}))
        if scribble(again) and not near(left_out, run(copy.deepcopy(given or {}))):
            raise Violation('%s: changing a returned array changes the result of later calls' % name)
        for k, v in documented.items():
            got = run(dict(copy.deepcopy(given or {}), **{k: copy.deepcopy(v)}))
            if not near(left_out, got):
                raise Violation('%s without the optional argument %s does not act as with the documented default %s=%r: %s != %s' % (
                    name, k, k, v, short(left_out), short(got)))

    def independent(self, msg, func, *args, **kw):
        """func returns the same again, also if its last result was overwritten
        by the caller"""
        run = lambda: func(*copy.deepcopy(args), **copy.deepcopy(kw))
        first = copy.deepcopy(run())
        if scribble(run()):
            again = run()
            if not near(first, again):
                raise Violation('%s: changing a returned array changes the result of later calls: %s != %s' % (msg, short(again), short(first)))

    @contextlib.contextmanager
    def unchanged(self, msg='', **objs):
        """the given objects (arrays, lists, dicts...) must not change inside"""
        before = {k: copy.deepcopy(v) for k, v in objs.items()}
        yield
        for k, v in objs.items():
            if not same(v, before[k]):
                raise Violation('%s: input %s was modified: %s -> %s' % (msg, k, short(before[k]), short(v)))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
            return bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())
        if a.dtype == object or b.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        return bool((a == b).all())
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'attr_lst') and hasattr(b, 'attr_lst'):
        # observable state only: container attributes and units
        return type(a) is type(b) and sorted(a.attr_lst) == sorted(b.attr_lst) and \
            all(same(getattr(a, k, None), getattr(b, k, None)) for k in list(a.attr_lst) + ['units', 'units_applied'])
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        return bool(a == b)
    except Exception:
        return a is b


def near(a, b):
    """same() up to rounding of floating point arrays"""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        m = np.abs(a[np.isfinite(a)])
        return np.allclose(a, b, rtol=1e-10, atol=1e-12 * (m.max() if m.size else 0), equal_nan=True)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if hasattr(a, 'attr_lst') and hasattr(b, 'attr_lst'):
        return type(a) is type(b) and sorted(a.attr_lst) == sorted(b.attr_lst) and \
            all(near(getattr(a, k, None), getattr(b, k, None)) for k in list(a.attr_lst) + ['units', 'units_applied'])
    if isinstance(a, float) and isinstance(b, float):
        return near(np.array([float(a)]), np.array([float(b)]))
    return same(a, b)


def scribble(a):
    """overwrite the arrays in a result"""
    if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind in 'fciu' and a.size:
        a[...] = 77
        return True
    if hasattr(a, 'attr_lst'):
        return any([scribble(getattr(a, k, None)) for k in a.attr_lst])
    if isinstance(a, dict):
        for x in list(a.values()):
            scribble(x)
        a['scribbled'] = 77
        return True
    if isinstance(a, (list, tuple)):
        done = any([scribble(x) for x in a])
        if isinstance(a, list):
            a.append(77)
        return done or isinstance(a, list)
    return False


def short(x, n=700):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


_tmp = dict(pid=os.getpid(), n=0, unique=False)


@contextlib.contextmanager
def tmpdir():
    # the same path in every case of a process: what is remembered by file
    # name from an earlier case shows up
    tmp = os.environ.get('TMPDIR', '/tmp')
    d = os.path.join(tmp, 'case.%d.%d' % (_tmp['pid'], _tmp['n']))
    _tmp['n'] += 1
    try:
        if _tmp['unique']:
            raise FileExistsError
        os.mkdir(d, 0o700)
    except FileExistsError:
        d = tempfile.mkdtemp(prefix='case.', dir=tmp)
    old = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# strategies
# --------------------------------------------------------------------------
seeds = st.integers(0, 2**31 - 1)


def rng(case_or_seed, salt=0):
    s = case_or_seed['seed'] if isinstance(case_or_seed, dict) else case_or_seed
    return np.random.default_rng([int(s), int(salt)])


def D(**kw):
    """dict of strategies / constants"""
    return st.fixed_dictionaries({k: (v if isinstance(v, st.SearchStrategy) else st.just(v)) for k, v in kw.items()})


def ints(a, b):
    return st.integers(a, b)


def sizes(a, b, *big):
    """a..b, now and then (1 of 24) one of the big sizes: long runs, many atoms"""
    return st.tuples(st.integers(0, 23), st.integers(a, b), st.sampled_from(big)).map(lambda x: x[2] if x[0] == 23 else x[1])


def floats(a, b, **kw):
    return st.floats(a, b, allow_nan=False, allow_infinity=False, **kw)


bools = st.booleans()
pick = st.sampled_from
SYMS = ['H', 'He', 'Li', 'B', 'C', 'N', 'O', 'F', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'K', 'Ca', 'Ti', 'Fe', 'Zn', 'Ga', 'As', 'Sr', 'Ag', 'Au', 'Pb', 'Be', 'Ne', 'Ar', 'Br', 'I', 'Rb', 'Y', 'Zr', 'Nb', 'Mo', 'V', 'W', 'Cs', 'Ce', 'Cd', 'Co', 'Cu', 'Sn', 'Sc', 'Sb', 'Os', 'Hf', 'Ho', 'Nd', 'Xe', 'Hg', 'Bi', 'Th', 'U']
symbols = lambda n0=1, n1=8: st.lists(pick(SYMS), min_size=n0, max_size=n1)
CELLKINDS = ['cubic', 'ortho', 'tric', 'skew', 'hex', 'random', 'left', 'perm']


def make_cell(kind, seed, lo=3.0, hi=9.0):
    """(3,3) cell with rows as vectors, well away from degenerate"""
    r = np.random.default_rng([int(seed), 77])
    if kind == 'cubic':
        return np.eye(3) * r.uniform(lo, hi)
    if kind == 'ortho':
        return np.diag(r.uniform(lo, hi, 3))
    if kind == 'hex':
        a, c = r.uniform(lo, hi, 2)
        return np.array([[a, 0, 0], [-a / 2, a * np.sqrt(3) / 2, 0], [0, 0, c]])
    if kind == 'fcc':
        a = r.uniform(lo, hi)
        return a / 2 * np.array([[0, 1., 1], [1, 0, 1], [1, 1, 0]])
    if kind in ('tric', 'skew'):
        lim = (70, 110) if kind == 'tric' else (50, 130)
        while True:
            al, be, ga = np.deg2rad(r.uniform(*lim, 3))
            v2 = 1 + 2 * np.cos(al) * np.cos(be) * np.cos(ga) - np.cos(al)**2 - np.cos(be)**2 - np.cos(ga)**2
            if v2 > 0.05:
                break
        a, b, c = r.uniform(lo, hi, 3)
        cx, cy = c * np.cos(be), c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
        return np.array([[a, 0, 0], [b * np.cos(ga), b * np.sin(ga), 0], [cx, cy, np.sqrt(c**2 - cx**2 - cy**2)]])
    if kind == 'perm':
        # lower triangular cell, axes renamed: some zeros at unusual places
        c = make_cell('skew', seed, lo, hi)
        p = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]][int(r.integers(1, 6))]
        s = r.choice([-1., 1.], 3)
        c = c[:, p] * s
        if np.linalg.det(c) < 0:
            c[:, int(r.integers(3))] *= -1
        if r.random() < .5:
            c = c[[1, 2, 0]]
        return c
    while True:
        m = r.uniform(-1, 1, (3, 3))
        n = np.sqrt((m**2).sum(1))
        if n.min() < 0.2:
            continue
        u = m / n[:, None]
        d = np.linalg.det(u)
        if abs(d) > 0.25:
            break
    if (kind == 'left') == (d > 0):
        u = u[[1, 0, 2]]
    return u * r.uniform(lo, hi, 3)[:, None]


def rand_rot(seed):
    r = np.random.default_rng([int(seed), 5])
    q, rr = np.linalg.qr(r.normal(size=(3, 3)))
    q = q * np.sign(np.diag(rr))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


cellkinds = pick(CELLKINDS)
cellkinds_rh = pick([k for k in CELLKINDS if k != 'left'])
