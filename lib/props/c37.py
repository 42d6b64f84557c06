from pv import *
import warnings, functools, spglib
from ase.spacegroup import Spacegroup
from pwtools import symmetry, crys, atomic_data

RULE = ('crystals of a random space group (1-230, operations from ASE, two to three random orbits, random lattice constants of the crystal system), then shifted, permuted, rotated, wrapped, repeated, distorted within '
        'symprec; the space group must be the one the crystal was built from and primitive cells must have its composition, volume and interatomic distances; non-trivial if the group is not P1')
ASSUMPTIONS = 'two random general orbits of different species have exactly the symmetry of the group (generic positions; metric coincidences are excluded by the random lattice constants)'


@functools.lru_cache(None)
def group(no, setting):
    try:
        return Spacegroup(no, setting=setting)
    except Exception:
        return Spacegroup(no)


CENT = dict(P=1, A=2, B=2, C=2, I=2, F=4, R=3)


def crystal(r, no, setting, maxat=400):
    """coords_frac, symbols, cryst_const, number of lattice points per cell"""
    sg = group(no, setting)
    while True:
        pos, sy = [], []
        for s in [str(x) for x in r.permutation(['H', 'O', 'Al', 'Si', 'Fe'])[:int(r.integers(2, 4))]]:
            p, _ = sg.equivalent_sites(r.uniform(size=3))
            if len(sy) + len(p) > maxat and len(set(sy)) >= 2:
                break
            pos.append(p)
            sy += [s] * len(p)
        pos = np.vstack(pos)
        L = (len(pos) * 20.0)**(1 / 3)
        C0 = crys.cc2cell(np.append(L * r.uniform(.8, 1.25, 3), r.uniform(70, 110, 3)))
        G = np.mean([W.T @ (C0 @ C0.T) @ W for W in sg.rotations], axis=0)       # invariant metric
        n = np.sqrt(np.diag(G))
        cc = np.append(n, [np.degrees(np.arccos(G[i, j] / n[i] / n[j])) for i, j in ((1, 2), (0, 2), (0, 1))])
        cell = crys.cc2cell(cc)
        d = pos[:, None] - pos[None]
        d -= np.rint(d)
        x = np.sqrt(((d @ cell)**2).sum(-1))
        np.fill_diagonal(x, 9)
        # positions that happen to have more symmetry within symprec (or were taken for special ones by ASE) are drawn again
        if x.min() > .35 and all(spglib.get_symmetry_dataset((cell, pos, [ord(q[0]) for q in sy]), symprec=e).number == no for e in (1e-3, 1e-6)):
            return pos, sy, cc, len(sg.subtrans)


def mk(cf, sy, cell):
    return crys.Structure(coords_frac=cf, symbols=list(sy), cell=cell)


def environment(cell, cf, sy, rmax):
    """per species: sorted list (over atoms) of the neighbour distances < rmax, as list of (symbol, distances by symbol)"""
    cell, cf = np.asarray(cell), np.asarray(cf) - np.floor(cf)
    h = 1 / np.linalg.norm(np.linalg.inv(cell), axis=0)
    n = [int(np.ceil(rmax / x)) + 1 for x in h]
    sh = np.array([[i, j, k] for i in range(-n[0], n[0] + 1) for j in range(-n[1], n[1] + 1) for k in range(-n[2], n[2] + 1)], float)
    tot = {}
    sy = np.array(sy)
    for i in range(len(cf)):
        v = ((cf - cf[i])[:, None] + sh[None]) @ cell
        d = np.sqrt((v**2).sum(-1))
        for s in sorted(set(sy)):
            q = d[sy == s].ravel()
            q = q[(q > 1e-3) & (q < rmax)]
            tot.setdefault((sy[i], s), []).append(np.sort(q))
    return tot


def moments(env):
    """per pair of species: mean over the central atoms of smooth sums over the distances"""
    return {k: np.mean([[np.exp(-x**2).sum(), np.exp(-x**2 / 4).sum(), (np.exp(-x) * np.sin(3 * x)).sum()] for x in v], axis=0) for k, v in env.items()}


def same_crystal(t, A, B, msg, tol=1e-4):
    """composition, density, distance statistics (both Structures)"""
    fa, fb = [{s: x.symbols.count(s) / x.natoms for s in set(x.symbols)} for x in (A, B)]
    t.eq(sorted(fa), sorted(fb), msg + ': species')
    for s in fa:
        t.close(fb[s], fa[s], msg + ': composition', rtol=1e-10)
    t.close(B.volume / B.natoms, A.volume / A.natoms, msg + ': volume per atom', rtol=max(tol, 1e-6))
    if max(A.natoms, B.natoms) <= 70:
        # gaussians have decayed at 7 Angstrom
        ma, mb = moments(environment(A.cell, A.coords_frac, A.symbols, 9.0)), moments(environment(B.cell, B.coords_frac, B.symbols, 9.0))
        for k in ma:
            t.close(mb[k], ma[k], msg + ': distances %s-%s' % k, rtol=tol, atol=tol)


def scell(r, cf, sy, cell, dims):
    sh = np.array([[i, j, k] for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])], float)
    x = ((cf[:, None] + sh[None]) / np.array(dims)).reshape(-1, 3)
    return x, [s for s in sy for _ in sh], cell * np.array(dims)[:, None]


CASE = D(seed=seeds, no=ints(1, 230), setting=ints(1, 2))


@sub(CASE, quick=200, thorough=3000, budget=(50, 500))
def spacegroup(case, t):
    r = rng(case)
    no = case['no']
    t.nontrivial(no > 1)
    pos, sy, cc, nl = crystal(r, no, case['setting'])
    cell = crys.cc2cell(cc)
    S = mk(pos, sy, cell)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with t.unchanged(cf=S.coords_frac, cell=S.cell, sy=S.symbols):
            num, sym = symmetry.spglib_get_spacegroup(S)
        t.eq(num, no, 'space group number')
        t.ok(isinstance(sym, str) and sym[0] in 'PABCIFR', 'symbol %r' % (sym,))
        t.ok(type(num) is int, 'number is int')
        for what in ('shift', 'perm', 'rot', 'wrap', 'super', 'lattice'):
            x, s, c = pos.copy(), list(sy), cell.copy()
            if what == 'shift':
                x = x + r.uniform(-1, 1, 3)
            elif what == 'perm':
                q = r.permutation(len(x))
                x, s = x[q], [s[i] for i in q]
            elif what == 'rot':
                c = c @ rand_rot(int(r.integers(2**31)))
            elif what == 'wrap':
                x = x + r.integers(-2, 3, x.shape)
            elif what == 'super':
                x, s, c = scell(r, x, s, c, [int(v) for v in ((1, 1, 2) if len(x) > 60 else r.integers(1, 4, 3) if len(x) < 16 else r.permutation([1, 1, 2]))])
            elif what == 'lattice':                   # another basis of the same lattice
                M = np.eye(3, dtype=int)
                i, j = [int(v) for v in r.permutation(3)[:2]]
                M[i, j] = int(r.choice([-1, 1]))
                c, x = M @ c, x @ np.linalg.inv(M)
            got = symmetry.spglib_get_spacegroup(mk(x, s, c), symprec=1e-4)
            t.eq(got, (num, sym), 'space group after: ' + what)
        # symprec is passed on
        if len(pos) > 2 and no > 2 and spglib.get_symmetry_dataset((cell, pos, S.znucl), symprec=6e-2, angle_tolerance=2).number == no:
            x = pos + (r.uniform(-1, 1, pos.shape) * 5e-3) @ np.linalg.inv(cell)
            D_ = mk(x, sy, cell)
            t.eq(symmetry.spglib_get_spacegroup(D_, symprec=1e-6)[0], 1, 'distorted crystal with symprec=1e-6')
            t.eq(symmetry.spglib_get_spacegroup(D_, symprec=6e-2, angle_tolerance=2)[0], no, 'distorted crystal with symprec=0.06')


@sub(CASE, quick=120, thorough=2000, budget=(60, 500))
def primitive(case, t):
    r = rng(case)
    no = case['no']
    t.nontrivial(no > 1)
    pos, sy, cc, nl = crystal(r, no, case['setting'], maxat=150)
    cell = crys.cc2cell(cc)
    nprim = len(pos) // nl
    dims = [int(v) for v in ([1, 1, 1] if len(pos) > 70 or r.random() < .3 else r.permutation([1, 1, 2]) if len(pos) > 16 else r.integers(1, 4, 3))]
    x, s, c = scell(r, pos, sy, cell, dims)
    x = x + (r.uniform(-1, 1, 3) if r.random() < .5 else 0)
    q = r.permutation(len(x))
    x, s = x[q], [s[i] for i in q]
    if r.random() < .5:
        c = c @ rand_rot(int(r.integers(2**31)))
    S = mk(x, s, c)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with t.unchanged(cf=S.coords_frac, cell=S.cell, sy=S.symbols):
            P = symmetry.spglib_get_primitive(S, symprec=1e-4)
        if P is None:
            t.eq(len(x), nprim, 'None (irreducible), but the primitive cell has fewer atoms')
            P = S
        t.eq(P.natoms, nprim, 'number of atoms of the primitive cell')
        t.close(P.volume, S.volume * nprim / len(x), 'volume of the primitive cell', rtol=1e-6)
        same_crystal(t, S, P, 'primitive cell')
        t.eq(symmetry.spglib_get_spacegroup(P, symprec=1e-4)[0], no, 'space group of the primitive cell')
        for k in ('coords', 'coords_frac', 'cell', 'cryst_const'):
            t.ok(np.isfinite(getattr(P, k)).all(), k)
        t.close(P.coords_frac @ P.cell, P.coords, 'primitive cell: coords', rtol=1e-9, atol=1e-9)
        P2 = symmetry.spglib_get_primitive(P, symprec=1e-4)
        t.ok(P2 is None or P2.natoms == P.natoms, 'primitive cell is reduced again')
        if P2 is None:
            t.ok(symmetry.is_same_struct(P, P), 'irreducible')
        P3 = symmetry.spglib_get_primitive(P2, symprec=1e-4) if P2 is not None else None
        t.label('idempotent' if P3 is None else 'not idempotent')
        # keywords go to spglib
        if nprim < len(x) and no > 2 and len(x) < 80:
            D_ = mk(x + (r.uniform(-1, 1, x.shape) * 5e-3) @ np.linalg.inv(c), s, c)
            for kw in (dict(symprec=1e-6), dict(symprec=6e-2, angle_tolerance=2)):
                q = spglib.find_primitive((c, D_.coords_frac, [atomic_data.numbers[v] for v in s]), **kw)
                got = symmetry.spglib_get_primitive(D_, **kw) if q is not None else None
                if got is not None:
                    t.label('distorted')
                    t.eq(got.natoms, len(q[2]), 'distorted crystal with %s: number of atoms' % kw)
        # None if and only if the cell found by spglib is the one which is already there
        for a in (S, P, P2, P3):
            if a is None:
                continue
            q = spglib.find_primitive((a.cell, a.coords_frac, [atomic_data.numbers[v] for v in a.symbols]), symprec=1e-4)
            n1, n2 = [crys.cell2cc(np.asarray(v)) for v in (q[0], a.cell)]
            sy2 = [atomic_data.numbers[v] for v in a.symbols]
            got = symmetry.spglib_get_primitive(a, symprec=1e-4)
            if list(q[2]) == sy2 and np.allclose(n1, n2, rtol=1e-9) and np.allclose(q[1], a.coords_frac, rtol=1e-9, atol=1e-10):
                t.label('already primitive')
                t.ok(got is None, 'a structure which is its own primitive cell must give None')


@sub(CASE, quick=150, thorough=2000, budget=(30, 240))
def same_struct(case, t):
    r = rng(case)
    pos, sy, cc, nl = crystal(r, case['no'], case['setting'], maxat=150)
    t.nontrivial(case['no'] > 1)
    cell = crys.cc2cell(cc)
    S = mk(pos, sy, cell)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = lambda a, b: (bool(symmetry.is_same_struct(a, b)), bool(symmetry.is_same_struct(b, a)))
        with t.unchanged(cf=S.coords_frac, cell=S.cell, sy=S.symbols):
            t.eq(f(S, S.copy()), (True, True), 'copy')
        t.eq(f(S, mk(pos, sy, cell @ rand_rot(int(r.integers(2**31))))), (True, True), 'rotated frame')
        t.eq(f(S, symmetry.spglib2struct(symmetry.struct2spglib(S))), (True, True), 'there and back')
        i, k = int(r.integers(len(sy))), int(r.integers(3))
        x = pos.copy()
        x[i, k] += float(r.choice([-1, 1])) * 10.0**r.uniform(-4.4, -1)
        t.eq(f(S, mk(x, sy, cell)), (False, False), 'one atom moved')
        z = list(sy)
        z[i] = 'U'
        t.eq(f(S, mk(pos, z, cell)), (False, False), 'one atom replaced')
        t.eq(f(S, mk(pos, sy, cell * float(r.choice([.99, 1.01])))), (False, False), 'scaled cell')
        c2 = cc.copy()
        c2[3 + k] += float(r.choice([-1, 1]))
        t.eq(f(S, mk(pos, sy, crys.cc2cell(c2))), (False, False), 'another angle')
        c2 = cc.copy()
        c2[k] *= 1.01
        c2[(k + 1) % 3] /= 1.01                       # the volume is nearly the same
        t.eq(f(S, mk(pos, sy, crys.cc2cell(c2))), (False, False), 'other lengths')
        if len(sy) > 2:
            t.eq(f(S, mk(pos[:-1], sy[:-1], cell)), (False, False), 'one atom less')
        j = next((j for j in range(len(sy)) if sy[j] != sy[0]), None)
        if j is not None:
            z = list(sy)
            z[0], z[j] = z[j], z[0]
            t.eq(f(S, mk(pos, z, cell)), (False, False), 'species exchanged')


@sub(D(seed=seeds, nat=ints(1, 12), kind=cellkinds_rh), quick=100, thorough=1000)
def conversion(case, t):
    r = rng(case)
    t.nontrivial(case['nat'] > 1)
    ref = dict(H=1, C=6, N=7, O=8, Al=13, Si=14, Fe=26, Zn=30, U=92)
    sy = [str(x) for x in r.choice(sorted(ref), case['nat'])]
    cell = make_cell(case['kind'], case['seed'])
    cf = r.uniform(-1, 2, (case['nat'], 3))
    S = mk(cf, sy, cell)
    tup = symmetry.struct2spglib(S)
    t.ok(isinstance(tup, tuple) and len(tup) == 3, 'tuple of three')
    t.close(tup[0], cell, 'cell', rtol=1e-12)
    t.close(tup[1], cf, 'coords_frac', rtol=1e-12)
    t.eq(list(tup[2]), [ref[s] for s in sy], 'atomic numbers')
    B = symmetry.spglib2struct(tup)
    t.eq(B.symbols, sy, 'symbols')
    t.close(B.cell, cell, 'cell back', rtol=1e-12)
    t.close(B.coords_frac, cf, 'coords_frac back', rtol=1e-12)
    t.close(B.coords, cf @ cell, 'coords', rtol=1e-9, atol=1e-9)
    for bad in (list(tup), tup[:2], None):
        with t.raises(AssertionError, TypeError, msg='not a spglib cell'):
            symmetry.spglib2struct(bad)
    # two atoms on one site: no space group, must not be made up
    k = int(r.integers(case['nat']))
    D_ = mk(np.vstack([cf, cf[k:k + 1]]), sy + [sy[k]], cell)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with t.raises(Exception, msg='no space group can be found'):
            symmetry.spglib_get_spacegroup(D_)
        with t.raises(Exception, msg='no primitive cell can be found'):
            symmetry.spglib_get_primitive(D_)
