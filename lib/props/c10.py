from pv import *
from gen import *
from geom import pair_dists
from pwtools import crys
from pwtools.crys import Structure, Trajectory
import itertools, warnings

RULE = ('random structures/trajectories (with and without symbols), dimensions incl. 1 and negative, both mask '
        'directions, both methods; non-trivial if the supercell has at least two cells')

dims = st.lists(pick([1, 1, 2, 2, 3, 4, -1, -2, -3]), min_size=3, max_size=3)


def my_mask(d, direc):
    rs = []
    for n in d:
        r = [i * (1 if n > 0 else -1) for i in range(abs(n))]
        rs.append(r if direc == 1 else r[::-1])
    return [(a, b, c) for a in rs[0] for b in rs[1] for c in rs[2]]


@sub(D(dims=st.lists(pick([1, 1, 2, 3, 4, 5, 7, -1, -2, -3, -4]), min_size=3, max_size=3), direc=pick([None, 1, -1])), quick=100, thorough=1500)
def mask(case, t):
    d = case['dims']
    m = crys.scell_mask(*d) if case['direc'] is None else crys.scell_mask(*d, direc=case['direc'])
    n = abs(d[0] * d[1] * d[2])
    t.shape(m, (n, 3))
    if case['direc'] == -1:
        # reverse of the forward mask, as documented
        f = crys.scell_mask(*d)
        t.eq(m[::-1] if min(d) > 0 else np.array(sorted(map(tuple, m))), f if min(d) > 0 else np.array(sorted(map(tuple, f))), 'direc=-1')
    else:
        t.eq(m, np.array(my_mask(d, 1), float), 'mask')
    t.eq(len({tuple(x) for x in m.tolist()}), n, 'translations are unique')
    t.independent('scell_mask', crys.scell_mask, *d)
    t.nontrivial(n > 1)


@sub(D(seed=seeds, kind=cellkinds, n=sizes(1, 5, 30, 110), traj=bools, nstep=sizes(1, 4, 40, 110), dims=dims, direc=pick([None, 1, -1]), sym=bools,
       method=pick([1, 1, 2]), dimform=pick(['tuple', 'list', 'arr'])), quick=300, thorough=6000)
def supercell(case, t):
    traj = case['traj']
    raw = raw_traj(case['seed'], case['kind'], case['n'], case['nstep'], True) if traj else raw_struct(case['seed'], case['kind'], case['n'])
    kw = {k: raw[k] for k in ('coords_frac', 'cell') + (('symbols',) if case['sym'] else ())}
    o = (Trajectory if traj else Structure)(**kw)
    d = case['dims']
    arg = dict(tuple=tuple, list=list, arr=np.array)[case['dimform']](d)
    opt = {} if case['direc'] is None else {'direc': case['direc']}
    if case['method'] == 2:
        if traj:
            with t.raises(Exception, msg='method=2 for Trajectory'):
                crys.scell(o, arg, method=2)
            return
        opt['method'] = 2
    with t.unchanged(o=o, arg=arg):
        if traj and case['seed'] % 4 == 0 and not opt:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sc_ = crys.scell3d(o, arg)
        else:
            sc_ = crys.scell(o, arg, **opt)
    t.ok(type(sc_) is type(o), 'type')
    N = abs(d[0] * d[1] * d[2])
    n = case['n']
    t.eq(sc_.natoms, n * N, 'natoms')
    m = np.array(my_mask(d, 1), float)
    mask_ = crys.scell_mask(*d, **({} if case['direc'] is None else {'direc': case['direc']}))
    t.eq(sorted(map(tuple, mask_.tolist())), sorted(map(tuple, m.tolist())), 'mask covers the prescribed translations')
    if case['sym']:
        t.eq(list(sc_.symbols), [s for s in o.symbols for _ in range(N)], 'symbols')
    else:
        t.ok(sc_.symbols is None, 'symbols')
    for i in range(case['nstep'] if traj else 1):
        cf, cell = (raw['coords_frac'][i], raw['cell'][i]) if traj else (raw['coords_frac'], raw['cell'])
        scell, scf, sco = (sc_.cell[i], sc_.coords_frac[i], sc_.coords[i]) if traj else (sc_.cell, sc_.coords_frac, sc_.coords)
        t.close(scell, cell * np.array(d)[:, None], 'cell')
        want = np.array([(c + k) @ cell for c in cf for k in mask_])
        t.close(sco, want, 'cartesian positions: every atom at every translation, atom by atom', rtol=1e-8, atol=1e-7)
        t.close(scf @ scell, want, 'fractional positions', rtol=1e-8, atol=1e-7)
        v = sc_.volume[i] if traj else sc_.volume
        t.close(v, abs(np.linalg.det(cell)) * N, 'volume', rtol=1e-8, atol=0)
    # periodic distances: all atoms keep their environment
    if not traj and n * N <= 40 and N > 1:
        # sum over a fixed set of images of r^-6 is not finite-size exact; instead map every atom back
        back = sco @ np.linalg.inv(cell)
        k = back - np.repeat(cf, N, axis=0)
        t.close(k, np.round(k), 'atoms are whole lattice vectors away from their original', atol=1e-7)
        t.eq(len({tuple(np.round(x).astype(int)) + (i // N,) for i, x in enumerate(k)}), n * N, 'no image twice')
        inside = np.linalg.inv(scell)
        diff = (sco[:, None] - sco[None]) @ inside
        diff -= np.round(diff)
        dist = np.sqrt((((diff) @ scell)**2).sum(-1)) + np.eye(n * N) * 9
        od = pair_dists(cf, cell, True)[0] + np.eye(n) * 9
        if od.min() > 1e-3:
            t.ok(dist.min() > 1e-4, 'two atoms of the supercell coincide')
    t.nontrivial(N > 1)
    t.label('traj' if traj else 'struct', 'method%d' % case['method'])


@sub(D(seed=seeds, kind=cellkinds, n=ints(1, 4), d1=dims, d2=dims), quick=80, thorough=1500)
def nesting(case, t):
    """supercell of a supercell is the supercell of the product dimensions (as set of atoms)"""
    raw = raw_struct(case['seed'], case['kind'], case['n'])
    o = Structure(coords_frac=raw['coords_frac'] % 1.0, cell=raw['cell'], symbols=raw['symbols'])
    d1, d2 = [abs(x) for x in case['d1']], [abs(x) for x in case['d2']]
    if np.prod(d1) * np.prod(d2) * case['n'] > 400:
        t.skip()
    a = crys.scell(crys.scell(o, d1), d2)
    b = crys.scell(o, [x * y for x, y in zip(d1, d2)])
    t.close(a.cell, b.cell, 'cell')
    key = lambda s: sorted(zip(s.symbols, *[np.round(c, 4).tolist() for c in s.coords.T + 1e-6]))
    ka, kb = key(a), key(b)
    t.eq([x[0] for x in ka], [x[0] for x in kb], 'symbols')
    # robust comparison by matching
    d = np.abs(a.coords[:, None] - b.coords[None]).max(-1)
    t.ok((d.min(1) < 1e-6).all() and len(set(d.argmin(1))) == len(d), 'same set of atoms')
    t.ok(all(a.symbols[i] == b.symbols[j] for i, j in enumerate(d.argmin(1))), 'same symbols')
    t.nontrivial()
