from pv import *
import gen, pickle, hashlib, warnings
from pwtools import io, crys, parse

RULE = ('random dictionaries of arrays (all numeric types, ranks 0-4, empty axes), numbers and strings under nested keys with or without leading slash, in histories of append/overwrite/update operations on one file, '
        'compared with a dict; structures, trajectories and parsers with random attributes dumped and loaded; non-trivial if something is nested or more than one operation is done')
NOTE = 'HDF5 values: numeric/bool arrays, numbers and strings (numbers come back as numpy scalars of the same kind)'

DT = ['f8', 'f4', 'i8', 'i4', 'u1', 'c16', 'c8', '?', '>f8', 'u8', 'i2']


def value(r):
    k = r.random()
    if k < .15:
        return str(r.choice(['', 'abc', 'ä ö €', 'two\nlines', '1.5', 'a' * 300]))
    if k < .3:
        return [int(r.integers(-10, 10)), float(r.normal()), complex(1, r.normal()), bool(r.random() < .5), np.float32(r.normal()), np.int16(5), np.nan][int(r.integers(7))]
    if k < .4:
        return [float(x) for x in r.normal(size=int(r.integers(1, 4)))]
    sh = tuple(int(x) for x in r.integers(0, 4, size=int(r.integers(0, 5))))
    a = r.normal(size=sh) * 10
    dt = str(r.choice(DT))
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a = np.abs(a).astype(dt) if dt[0] == 'u' else a.astype(dt)
    if a.ndim and r.random() < .2:
        a = np.asfortranarray(a)
    if a.ndim and r.random() < .2:
        a = a[::-1]
    if a.dtype.kind == 'f' and a.ndim and r.random() < .2:
        a[...] = np.inf
    return a


def check_val(t, got, v, msg):
    if isinstance(v, str):
        t.ok(type(got) is str and got == v, '%s: %r, expected %r' % (msg, got, v))
        return
    e = np.asarray(v)
    g = np.asarray(got)
    t.shape(g, e.shape, msg)
    t.ok(g.dtype.kind == e.dtype.kind and g.dtype.itemsize == e.dtype.itemsize, '%s: type %s, expected %s' % (msg, g.dtype, e.dtype))
    t.ok(np.array_equal(g, e, equal_nan=e.dtype.kind in 'fc'), '%s: %s, expected %s' % (msg, short(g), short(e)))
    if e.ndim:
        t.ok(isinstance(got, np.ndarray), msg + ': array')


NAMES = ['a', 'b', 'c', 'x y', 'ü', '1', 'A', 'coords', 'a.b', 'Z-z']


def key(r, depth=None):
    n = int(r.integers(1, 5))
    return '/' + '/'.join(str(r.choice(NAMES)) for _ in range(n))


def free(k, model):
    """key can be added: neither used, nor below a dataset, nor a group"""
    if k in model:
        return False
    return not any(m.startswith(k + '/') or k.startswith(m + '/') for m in model)


def compare(t, fn, model):
    h = hashlib.md5(open(fn, 'rb').read()).hexdigest()
    got = io.read_h5(fn)
    t.eq(type(got), dict, 'type')
    t.eq(sorted(got), sorted(model), 'keys')
    for k in model:
        check_val(t, got[k], model[k], k)
    t.eq(hashlib.md5(open(fn, 'rb').read()).hexdigest(), h, 'reading does not modify the file')
    return got


@sub(D(seed=seeds, ops=st.lists(pick(['append', 'append', 'append', 'w', 'update', 'conflict', 'read', 'w-', 'r+']), min_size=1, max_size=7)), quick=200, thorough=3000)
def hdf5_history(case, t):
    r = rng(case)
    t.nontrivial(len(case['ops']) > 1)
    with tmpdir() as d:
        fn = os.path.join(d, 'a b.h5')
        model = {}
        for op in case['ops']:
            new = {}
            for _ in range(int(r.integers(0, 5))):
                k = key(r)
                if free(k, new) and (op in ('w', 'update') or free(k, model)):
                    new[k] = value(r)
            arg = {(k[1:] if r.random() < .4 else k): v for k, v in new.items()}
            if op == 'append':
                with t.unchanged(arg=arg):
                    io.write_h5(fn, arg, **({} if r.random() < .5 else dict(mode='a')))
                model.update(new)
            elif op == 'w':
                io.write_h5(fn, arg, mode='w')
                model = new
            elif op == 'w-':
                ex = os.path.exists(fn)
                if ex:
                    with t.raises(msg='mode w- on an existing file'):
                        io.write_h5(fn, arg, mode='w-')
                else:
                    io.write_h5(fn, arg, mode='w-')
                    model = new
            elif op == 'r+':
                if os.path.exists(fn):
                    io.write_h5(fn, arg, mode='r+')
                    model.update(new)
                else:
                    with t.raises(msg='mode r+ without file'):
                        io.write_h5(fn, arg, mode='r+')
                    t.ok(not os.path.exists(fn), 'no file created')
            elif op == 'update':
                if os.path.exists(fn):
                    # documented recipe
                    old = io.read_h5(fn)
                    up = {k: v for k, v in new.items() if k in model or free(k, model)}
                    for k in list(model)[:2]:
                        up[k] = value(r)
                    old.update(up)
                    io.write_h5(fn, old, mode='w')
                    model.update(up)
            elif op == 'conflict':
                if model:
                    k = sorted(model)[int(r.integers(len(model)))]
                    with t.raises(msg='existing key in append mode'):
                        io.write_h5(fn, {(k[1:] if r.random() < .5 else k): value(r)})
            if os.path.exists(fn):
                compare(t, fn, model)
            else:
                t.eq(model, {}, 'no file yet')


@sub(D(seed=seeds, n=ints(1, 8)), quick=100, thorough=1500)
def hdf5_key_forms(case, t):
    """same content for every key order and with or without leading slash"""
    r = rng(case)
    model = {}
    for _ in range(case['n']):
        k = key(r)
        if free(k, model):
            model[k] = value(r)
    t.nontrivial(any(k.count('/') > 1 for k in model))
    with tmpdir() as d:
        for i in range(2):
            ks = [list(model)[j] for j in r.permutation(len(model))]
            fn = os.path.join(d, '%i.hdf' % i)
            io.write_h5(fn, {(k[1:] if r.random() < .5 else k): model[k] for k in ks})
            got = compare(t, fn, model)
        # read -> write is the identity
        fn = os.path.join(d, '2.h5')
        io.write_h5(fn, got)
        compare(t, fn, model)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            t.eq(sorted(io.load_h5(fn)), sorted(model), 'load_h5')
        # values are loaded copies
        for v in got.values():
            if isinstance(v, np.ndarray) and v.size:
                v[...] = 0
        compare(t, fn, model)
        with t.raises(msg='missing file'):
            io.read_h5(os.path.join(d, 'nope'))
        t.ok(not os.path.exists(os.path.join(d, 'nope')), 'reading creates no file')


def subset(r, g, must=()):
    return {k: v for k, v in g.items() if k in must or r.random() < .6}


def deep(x):
    return {k: v for k, v in x.__dict__.items()}


def objeq(t, a, b, msg):
    t.ok(type(a) is type(b), msg + ': class')
    t.eq(sorted(a.__dict__), sorted(b.__dict__), msg + ': attributes')
    for k in a.__dict__:
        x, y = a.__dict__[k], b.__dict__[k]
        if isinstance(x, np.ndarray):
            t.ok(isinstance(y, np.ndarray) and x.dtype == y.dtype, '%s: type of %s' % (msg, k))
        t.ok(type(x) is type(y), '%s: type of %s' % (msg, k))
        t.ok(same(x, y), '%s: %s: %s != %s' % (msg, k, short(x), short(y)))


@sub(D(seed=seeds, traj=bools, n=sizes(1, 5, 40, 110), nstep=sizes(1, 5, 60, 130), kind=cellkinds, how=pick(['dump', 'dump', 'load', 'pickle']), dirs=pick([None, 'x/y', 'sp ace']), auto=bools, proto=ints(0, 5)), quick=200, thorough=3000)
def objects(case, t):
    r = rng(case)
    s = case['seed']
    if case['traj']:
        g = subset(r, gen.raw_traj(s, case['kind'], case['n'], case['nstep']), must=('coords',))
        cls = crys.Trajectory
    else:
        g = subset(r, gen.raw_struct(s, case['kind'], case['n']))
        cls = crys.Structure
    kw = dict(units=dict(length=0.5)) if r.random() < .3 else {}
    o = cls(set_all_auto=case['auto'], **g, **kw)
    t.nontrivial(len(g) > 1)
    cwd = os.getcwd()
    with tmpdir() as d:
        dr = d if case['dirs'] is None else os.path.join(d, case['dirs'])
        fn = os.path.join(dr, 'o.pk')
        if case['dirs']:
            with t.raises(OSError, msg='missing directory'):
                o.dump(fn, mkdir=False)
        if case['how'] == 'pickle':
            os.makedirs(dr, exist_ok=True)
            with open(fn, 'wb') as fh:
                pickle.dump(o, fh, protocol=case['proto'])
        elif case['seed'] % 2:
            os.chdir(d)
            o.dump(os.path.relpath(fn, d))
        else:
            o.dump(fn)
        t.eq(os.listdir(dr), ['o.pk'], 'files')
        raw = open(fn, 'rb').read()
        if case['how'] == 'load':
            p = cls(set_all_auto=False)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p.load(fn)
        elif case['how'] == 'pickle' and case['seed'] % 3 == 0:
            from pwtools import common
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                p = common.cpickle_load(fn)
        else:
            p = io.read_pickle(fn)
        objeq(t, o, p, 'loaded')
        t.ok(open(fn, 'rb').read() == raw, 'file unchanged')
        # a working, independent object
        names = [a for a in o.attr_lst]
        if not case['auto']:
            o.set_all()
            p.set_all()
        t.ok(same(o, p), 'loaded object calculates the same')
        q = p.copy()
        t.ok(same(q, o), 'copy of the loaded object')
        for a in names:
            v = getattr(p, a)
            if isinstance(v, np.ndarray) and v.size:
                v += 1
        t.ok(same(io.read_pickle(fn), p) is (not any(isinstance(getattr(p, a), np.ndarray) and getattr(p, a).size for a in names)) or not case['auto'], 'independent')
        o.dump(fn)
        objeq(t, o, io.read_pickle(fn), 'overwritten')
    os.chdir(cwd)


PDBT = 'CRYST1   10.000   11.000   12.000  90.00  91.00  92.00 P 1\n'


@sub(D(seed=seeds, n=ints(1, 5), parsed=bools, units=bools), quick=60, thorough=800)
def parsers(case, t):
    r = rng(case)
    with tmpdir() as d:
        fn = os.path.join(d, 'x.pdb')
        with open(fn, 'w') as fh:
            fh.write(PDBT)
            for i in range(case['n']):
                fh.write('ATOM  %5d  C   MET A   1    %8.3f%8.3f%8.3f\n' % ((i,) + tuple(r.uniform(-9, 9, 3))))
        p = parse.PDBFile(fn, units=dict(length=2.0) if case['units'] else None)
        t.nontrivial(case['parsed'])
        if case['parsed']:
            p.parse()
        p.dump(os.path.join(d, 'p.pk'))
        q = io.read_pickle(os.path.join(d, 'p.pk'))
        objeq(t, p, q, 'parser')
        if case['parsed']:
            os.remove(fn)       # everything is in the dumped object
            s = q.get_struct()
            t.eq(s.natoms, case['n'], 'get_struct after loading')
            t.close(s.coords, p.coords * (2 if case['units'] else 1), 'coords', rtol=1e-12)
        else:
            t.ok(same(q.get_struct(), p.get_struct()), 'get_struct')
