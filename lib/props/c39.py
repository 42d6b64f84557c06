from pv import *
import contextlib, io as _io, warnings
from pwtools import random as prandom, atomic_data

RULE = ('random compositions, scales, angle and length ranges, seeds; every returned structure is checked with an own exact periodic distance search and own formulas for the ranges; impossible settings must raise '
        'RandomStructureFail; same seed, same structure; non-trivial if there are at least two atoms')
ASSUMPTIONS = 'covalent radii of atomic_data (compared with ASE in C42)'

SY = ['H', 'C', 'N', 'O', 'Al', 'Si', 'Fe', 'Zn', 'U', 'Cs']


def settings(r):
    kw = {}
    if r.random() < .7:
        kw['vol_scale'] = float(r.choice([1.5, 2, 4, 8, 30]))
    if r.random() < .6:
        kw['angle_range'] = [[60., 120.], [80., 100.], [90., 90.], [40., 140.], [50., 70.], [100., 115.]][int(r.integers(6))]
    if r.random() < .5:
        kw['vol_range_scale'] = [[.7, 1.3], [.9, 1.1], [.5, 2.], [.3, .8]][int(r.integers(4))]
    if r.random() < .5:
        kw['length_range_scale'] = [[.7, 1.3], [.5, 2.0], [.95, 1.05], [.4, 3.]][int(r.integers(4))]
    if r.random() < .6:
        kw['close_scale'] = float(r.choice([.1, .5, .8, 1, 1.1]))
    kw['atom_maxtry'] = int(r.choice([50, 200, 1000]))
    if r.random() < .4:
        kw['cell_maxtry'] = int(r.choice([1, 5, 100, 500]))
    for k in ('angle_range', 'vol_range_scale', 'length_range_scale'):
        if k in kw and r.random() < .3:
            kw[k] = tuple(kw[k])
    return kw


def check(t, s, sy, kw, msg=''):
    rad = np.array([atomic_data.pt[x]['cov_rad'] for x in sy])
    V = 4 / 3 * np.pi * (rad**3).sum() * kw.get('vol_scale', 4)
    L = V**(1 / 3)
    e = 1e-9
    inr = lambda x, lo, hi, m: t.ok(np.all((np.asarray(x) >= lo * (1 - e)) & (np.asarray(x) <= hi * (1 + e))), '%s%s = %s not in [%s, %s]' % (msg, m, short(x), lo, hi))
    t.eq(list(s.symbols), sy, msg + 'symbols')
    t.eq(s.natoms, len(sy), msg + 'natoms')
    n = np.linalg.norm(s.cell, axis=1)
    ang = np.degrees([np.arccos(np.dot(s.cell[i], s.cell[j]) / n[i] / n[j]) for i, j in ((1, 2), (0, 2), (0, 1))])
    a, b = kw.get('length_range_scale', (.7, 1.3))
    inr(n, L * a, L * b, 'cell lengths')
    a, b = kw.get('angle_range', (60., 120.))
    inr(ang, a, b, 'cell angles')
    a, b = kw.get('vol_range_scale', (.7, 1.3))
    inr(abs(np.linalg.det(s.cell)), V * a, V * b, 'volume')
    t.close(s.volume, abs(np.linalg.det(s.cell)), msg + 'Structure.volume', rtol=1e-9)
    t.shape(s.coords_frac, (len(sy), 3), msg + 'coords_frac')
    t.ok(((s.coords_frac >= 0) & (s.coords_frac < 1)).all(), msg + 'coords_frac in the cell')
    # distances
    h = 1 / np.linalg.norm(np.linalg.inv(s.cell), axis=0)
    dmin = (rad[:, None] + rad) * kw.get('close_scale', 1)
    nn = np.ceil(dmin.max() / h + 1).astype(int)
    sh = np.array([[i, j, k] for i in range(-nn[0], nn[0] + 1) for j in range(-nn[1], nn[1] + 1) for k in range(-nn[2], nn[2] + 1)], float) @ s.cell
    x = s.coords_frac @ s.cell
    for i in range(1, len(sy)):
        for j in range(i):
            d = np.sqrt(((x[i] - x[j] + sh)**2).sum(1)).min()
            t.ok(d >= dmin[i, j] * (1 - e), '%sdistance of atoms %d and %d is %g < %g' % (msg, i, j, d, dmin[i, j]))


@contextlib.contextmanager
def state(seed):
    old = np.random.get_state()
    np.random.seed(seed % 2**32)
    with contextlib.redirect_stdout(_io.StringIO()) as o, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            yield o
        finally:
            np.random.set_state(old)


@sub(D(seed=seeds, nat=ints(1, 12), form=pick(['get', 'get', 'short', 'nofail', 'sensible']), n=ints(1, 3)), quick=250, thorough=5000, budget=(60, 600))
def generate(case, t):
    r = rng(case)
    sy = [str(x) for x in r.choice(SY, case['nat'])]
    kw = settings(r)
    if case['form'] == 'nofail':
        kw.update(close_scale=.6, vol_scale=6.0, angle_range=(70., 110.), cell_maxtry=int(r.choice([1, 100])), atom_maxtry=int(r.choice([3, 1000])))
        for k in ('vol_range_scale', 'length_range_scale'):
            kw.pop(k, None)
    if case['form'] == 'sensible':
        kw = dict(close_scale=.6, vol_scale=6.0, angle_range=(70., 110.), cell_maxtry=1000, atom_maxtry=2000)
    t.nontrivial(case['nat'] > 1)
    sy0, kw0 = list(sy), json_copy(kw)
    out = []
    for rep in range(2):
        res = []
        with state(case['seed']) as o:
            if case['form'] == 'short':
                f = lambda: prandom.random_struct(sy, **kw)
                rs = None
            else:
                rs = prandom.RandomStructure(sy, verbose=bool(r.integers(2)), **kw)
                f = lambda: rs.get_random_struct(fail=case['form'] != 'nofail')
            for _ in range(case['n']):
                try:
                    s = f()
                except prandom.RandomStructureFail as e:
                    t.ok(case['form'] != 'nofail', 'fail=False, but RandomStructureFail is raised')
                    t.ok(case['form'] != 'sensible', 'no structure found in 1000 cells for a wide range of volumes')
                    t.ok(len(str(e)) > 0, 'message')
                    res.append(None)
                    continue
                t.ok(s is not None, 'nothing returned')
                check(t, s, sy0, kw)
                if rs is not None:
                    t.ok(1 <= rs.counters['cryst_const'] <= kw.get('cell_maxtry', 100), 'number of tries for the cell: %s' % rs.counters['cryst_const'])
                    t.eq(len(rs.counters['coords']), len(sy0), 'counters per atom')
                    t.ok(max(rs.counters['coords']) <= kw['atom_maxtry'], 'number of tries for one atom: %s' % rs.counters['coords'])
                res.append((s, s.cell.copy(), s.coords_frac.copy()))
        for x in res:
            if x:
                t.ok(same(x[0].cell, x[1]) and same(x[0].coords_frac, x[2]), 'structure returned earlier has changed')
        got = [x for x in res if x]
        for a, b in zip(got, got[1:]):
            t.ok(not np.allclose(a[1], b[1]), 'two structures in a row have the same cell') if kw.get('angle_range') != [90., 90.] or True else None
        out.append(res)
    t.eq(sy, sy0, 'symbols unchanged')
    t.eq(json_copy(kw), kw0, 'settings unchanged')
    a, b = out
    t.eq([x is None for x in a], [x is None for x in b], 'same seed: success')
    for x, y in zip(a, b):
        if x:
            t.ok(same(x[1], y[1]) and same(x[2], y[2]), 'same seed, other structure')
    t.label('fail' if any(x is None for x in a) else 'ok')


def json_copy(x):
    return json.loads(json.dumps(x))


import json


@sub(D(seed=seeds, nat=ints(2, 6), what=pick(['volume', 'angles', 'close', 'one try'])), quick=60, thorough=600)
def impossible(case, t):
    r = rng(case)
    t.nontrivial()
    sy = [str(x) for x in r.choice(SY, case['nat'])]
    kw = dict(volume=dict(vol_range_scale=[3., 4.]), angles=dict(angle_range=[130., 170.], length_range_scale=[.9, 1.1]), close=dict(close_scale=8.0, atom_maxtry=20), **{'one try': dict(close_scale=5.0, atom_maxtry=1, cell_maxtry=1)})[case['what']]
    with state(case['seed']):
        rs = prandom.RandomStructure(sy, **kw)
        for _ in range(3):
            try:
                s = rs.get_random_struct()
            except prandom.RandomStructureFail:
                continue
            t.ok(False, 'a structure is returned although the constraints cannot be met')


@sub(D(seed=seeds, nat=ints(1, 5)), quick=100, thorough=1500)
def cryst_const(case, t):
    r = rng(case)
    sy = [str(x) for x in r.choice(SY, case['nat'])]
    kw = settings(r)
    t.nontrivial(len(kw) > 1)
    with state(case['seed']):
        rs = prandom.RandomStructure(sy, **kw)
        try:
            cc = rs.get_random_cryst_const()
        except prandom.RandomStructureFail:
            t.label('fail')
            return
    t.shape(cc, (6,), 'cryst_const')
    rad = np.array([atomic_data.pt[x]['cov_rad'] for x in sy])
    V = 4 / 3 * np.pi * (rad**3).sum() * kw.get('vol_scale', 4)
    lo, hi = kw.get('length_range_scale', (.7, 1.3))
    t.ok(((cc[:3] >= lo * V**(1 / 3)) & (cc[:3] <= hi * V**(1 / 3))).all(), 'lengths %s' % cc)
    lo, hi = kw.get('angle_range', (60., 120.))
    t.ok(((cc[3:] >= lo) & (cc[3:] <= hi)).all(), 'angles %s' % cc)
    ca, cb, cg = np.cos(np.radians(cc[3:]))
    v = np.prod(cc[:3]) * math.sqrt(1 + 2 * ca * cb * cg - ca**2 - cb**2 - cg**2)
    if case['seed'] % 4 == 0:
        # the values are spread over the allowed ranges
        with state(case['seed'] + 1):
            rs = prandom.RandomStructure(sy, vol_scale=5, vol_range_scale=(.01, 9.), length_range_scale=(.9, 1.1), angle_range=(80., 100.))
            c = np.array([rs.get_random_cryst_const() for _ in range(40)])
        m = (V * 5 / kw.get('vol_scale', 4))**(1 / 3)
        for k in range(6):
            mid = m if k < 3 else 90.
            w = .1 * m if k < 3 else 10.
            t.ok(c[:, k].min() < mid - .3 * w and c[:, k].max() > mid + .3 * w, 'cryst_const[%d] of 40 random cells is within [%g, %g], allowed is %g +- %g' % (k, c[:, k].min(), c[:, k].max(), mid, w))
    lo, hi = kw.get('vol_range_scale', (.7, 1.3))
    t.ok(lo * V * (1 - 1e-9) <= v <= hi * V * (1 + 1e-9), 'volume %s not in %s' % (v, [lo * V, hi * V]))


DOC = dict(vol_scale=4, angle_range=[60., 120.], vol_range_scale=[.7, 1.3], length_range_scale=[.7, 1.3], close_scale=1, cell_maxtry=100, atom_maxtry=1000, verbose=False)


@sub(D(seed=seeds, nat=ints(1, 5)), quick=40, thorough=600)
def documented_defaults(case, t):
    """settings left out and given with their documented values: the same structure from the same random numbers"""
    r = rng(case, 3)
    sy = [str(x) for x in r.choice(SY, case['nat'])]
    res = []
    for kw in [{}] + [{k: v} for k, v in DOC.items()] + [DOC]:
        with state(case['seed']) as o:
            try:
                s = prandom.RandomStructure(sy, **kw).get_random_struct()
                x = (s.cell.tolist(), s.coords_frac.tolist())
            except prandom.RandomStructureFail as e:
                x = 'failed'
            res.append((x, o.getvalue(), float(np.random.uniform())))
        t.ok(near(res[-1], res[0]), 'with %r: %s, without: %s' % (kw, short(res[-1]), short(res[0])))
    t.nontrivial(case['nat'] > 1 and res[0][0] != 'failed')


@sub(D(seed=seeds, cell=bools), quick=6, thorough=60)
def number_of_attempts(case, t):
    """100 cells, 1000 positions of an atom are tried before giving up"""
    with state(case['seed']):
        rs = [prandom.RandomStructure(['H', 'H', 'C'], close_scale=50, **kw) for kw in ({}, dict(atom_maxtry=1000), dict(cell_maxtry=100), dict(atom_maxtry=1001))] if not case['cell'] else \
             [prandom.RandomStructure(['H', 'C'], vol_range_scale=[50., 60.], **kw) for kw in ({}, dict(cell_maxtry=100), dict(atom_maxtry=1000), dict(cell_maxtry=101))]
        left = []
        for x in rs:
            np.random.seed(case['seed'] % 2**32)
            with t.raises(prandom.RandomStructureFail, msg='impossible request'):
                x.get_random_struct()
            left.append(float(np.random.uniform()))
        t.nontrivial()
        t.eq(left[1:3], [left[0]] * 2, 'random numbers used')
        t.ok(left[3] != left[0], 'one more attempt')
