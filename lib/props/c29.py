from pv import *
import gen, io as _io, contextlib as _c, warnings
from pwtools import io, crys, parse, lammps, constants, atomic_data

RULE = ('random structures and trajectories (any cell incl. skewed, atoms outside the cell, tiny and huge coordinates, element lists with repetitions) written in every format; the text is read by own minimal '
        'parsers of the format, by the readers of the package and (CIF) by ASE; non-trivial if there is more than one atom')

SY = ['H', 'C', 'N', 'O', 'Al', 'Si', 'Fe', 'Cl', 'Zn', 'U']


def make(r, nat, kind, scale=1.0):
    cell = make_cell(kind, int(r.integers(2**31))) * scale
    if np.linalg.det(cell) < 0:
        cell = cell[[1, 0, 2]]
    cf = r.uniform(-1.5, 2.5, (nat, 3))
    k = r.random((nat, 3))
    cf[k < .1] = 0.0
    cf[(k > .1) & (k < .15)] = 1.0
    cf[(k > .15) & (k < .2)] *= 1e-6
    return cell, cf, [str(x) for x in r.choice(SY, nat)]


def struct(r, nat, kind):
    cell, cf, sy = make(r, nat, kind)
    if r.random() < .5:
        return crys.Structure(cell=cell, coords_frac=cf, symbols=sy)
    if r.random() < .5:
        return crys.Structure(cryst_const=crys.cell2cc(cell), coords_frac=cf, symbols=sy)
    return crys.Structure(cell=cell, coords=cf @ cell, symbols=sy)


def cc_of(cell):
    L = np.linalg.norm(cell, axis=1)
    ang = lambda a, b: np.degrees(np.arccos(np.clip(np.dot(a, b) / np.linalg.norm(a) / np.linalg.norm(b), -1, 1)))
    return np.array(list(L) + [ang(cell[1], cell[2]), ang(cell[0], cell[2]), ang(cell[0], cell[1])])


def quiet(f, *a, **k):
    with _c.redirect_stdout(_io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


base = dict(seed=seeds, nat=sizes(1, 8, 30, 110), kind=cellkinds)


@sub(D(**base, ase=bools), quick=50, thorough=700, budget=(20, 240))
def cif(case, t):
    r = rng(case)
    s = struct(r, case['nat'], case['kind'])
    t.nontrivial(case['nat'] > 1)
    with tmpdir() as d:
        fn = os.path.join(d, 'a b.cif')
        with t.unchanged(cf=s.coords_frac, cell=s.cell, sy=s.symbols):
            quiet(io.write_cif, fn, s)
        txt = open(fn).read()
        # own reading
        items = dict(l.split(None, 1) for l in txt.split('\n') if l.startswith('_') and len(l.split(None, 1)) == 2)
        for k, v in zip(['length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'], cc_of(s.cell)):
            t.close(float(items['_cell_' + k]), v, '_cell_' + k, rtol=1e-9)
        lines = txt.split('\n')
        i = lines.index('loop_') + 1
        cols = []
        while lines[i].strip().startswith('_'):
            cols.append(lines[i].strip())
            i += 1
        rows = [l.split() for l in lines[i:] if l.strip()]
        t.eq(len(rows), case['nat'], 'atom lines')
        col = lambda n: [x[cols.index(n)] for x in rows]
        t.eq(col('_atom_site_type_symbol'), s.symbols, 'symbols')
        for k, n in enumerate('xyz'):
            t.close([float(x) for x in col('_atom_site_fract_' + n)], s.coords_frac[:, k], 'coords_frac', rtol=1e-15, atol=1e-300)
        # package
        s2 = io.read_cif(fn)
        t.eq(s2.symbols, s.symbols, 'read_cif symbols')
        t.close(s2.coords_frac, s.coords_frac, 'read_cif coords_frac', rtol=1e-14, atol=1e-300)
        t.close(s2.cryst_const, cc_of(s.cell), 'read_cif cryst_const', rtol=1e-9)
        t.close(s2.volume, abs(np.linalg.det(s.cell)), 'volume', rtol=1e-7)
        s3 = parse.CifFile(fn, block='pwtools').get_struct()
        t.close(s3.coords_frac, s2.coords_frac, 'block')
        with t.raises(msg='no such block'):
            parse.CifFile(fn, block='other').get_struct()
        dx = s.coords_frac[:, None] - s.coords_frac[None]
        dx = np.abs(dx - np.round(dx)).max(-1) + np.eye(case['nat'])
        if case['ase'] and dx.min() > 1e-2:     # ASE merges coincident sites and wraps
            import ase.io
            a = quiet(ase.io.read, fn)
            t.eq(a.get_chemical_symbols(), s.symbols, 'ase symbols')
            dx = a.get_scaled_positions(wrap=False) - s.coords_frac
            t.close(dx - np.round(dx), 0 * dx, 'ase coords', atol=1e-8)
            t.close(a.cell.cellpar(), cc_of(s.cell), 'ase cell', rtol=1e-8)


CIFT = """data_one
_cell_length_a %s
_cell_length_b %s
_cell_length_c %s
_cell_angle_alpha %s
_cell_angle_beta %s
_cell_angle_gamma %s

loop_
%s
"""


@sub(D(seed=seeds, nat=ints(1, 6), unc=bools, cart=pick(['frac', 'cart', 'both']), label=pick(['label', 'type', 'both']), prec=ints(2, 9), second=bools), quick=60, thorough=700, budget=(15, 240))
def foreign_cif(case, t):
    """uncertainties, numbered or charged labels, cartesian coords, several blocks"""
    r = rng(case)
    f = lambda x: ('%.*f' % (case['prec'], x)) + ('(%i)' % r.integers(1, 30) if case['unc'] and r.random() < .7 else '')
    val = lambda x: float('%.*f' % (case['prec'], x))
    cc = np.array(list(r.uniform(2, 20, 3)) + list(r.uniform(70, 110, 3)))
    nat = case['nat']
    sy = [str(x) for x in r.choice(SY, nat)]
    x = r.uniform(-1, 2, (nat, 3))
    c = r.uniform(-10, 10, (nat, 3))
    cols, dat = [], []
    if case['label'] != 'type':
        cols.append('_atom_site_label')
        # free labels if the elements are given in another column
        free = case['label'] == 'both'
        dat.append([(str(r.choice(['Ow', 'CA', 'X', 'Qq', 'He', s])) if free else s) + str(i) for i, s in enumerate(sy)])
    if case['label'] != 'label':
        cols.append('_atom_site_type_symbol')
        dat.append([s + str(r.choice(['', '2+', '3-', '0'])) for s in sy])
    if case['cart'] != 'cart':
        for k in range(3):
            cols.append('_atom_site_fract_' + 'xyz'[k])
            dat.append([f(v) for v in x[:, k]])
    if case['cart'] != 'frac':
        for k in range(3):
            cols.append('_atom_site_Cartn_' + 'xyz'[k])
            dat.append([f(v) for v in c[:, k]])
    order = r.permutation(len(cols))
    loop = '\n'.join(cols[i] for i in order) + '\n' + '\n'.join(' '.join(dat[i][j] for i in order) for j in range(nat))
    txt = CIFT % (tuple(f(v) for v in cc) + (loop,))
    if case['second']:
        txt += '\n' + (CIFT % ((1, 2, 3, 90, 90, 90, '_atom_site_label\n_atom_site_fract_x\n_atom_site_fract_y\n_atom_site_fract_z\nH 0 0 0'))).replace('data_one', 'data_two')
    t.nontrivial(nat > 1)
    with tmpdir() as d:
        fn = os.path.join(d, 'x.cif')
        open(fn, 'w').write(txt)
        p = quiet(parse.CifFile, fn)
        quiet(p.parse)
        t.eq(p.symbols, sy, 'symbols')
        V = np.vectorize(val)
        t.close(p.cryst_const, V(cc), 'cryst_const', rtol=1e-15)
        if case['cart'] != 'cart':
            t.close(p.coords_frac, V(x), 'coords_frac', rtol=1e-15)
        else:
            t.ok(p.coords_frac is None, 'no coords_frac')
        if case['cart'] != 'frac':
            t.close(p.coords, V(c), 'coords', rtol=1e-15)
        else:
            t.ok(p.coords is None, 'no coords')
        if case['second']:
            s2 = quiet(parse.CifFile(fn, block='two').get_struct)
            t.eq(s2.symbols, ['H'], 'second block')
            t.close(s2.cryst_const, [1, 2, 3, 90, 90, 90], 'second block')
            t.eq(quiet(parse.CifFile(fn, block='one').get_struct).symbols, sy, 'first block')


@sub(D(seed=seeds, nat=sizes(1, 12, 60, 150), cryst=bools, het=bools, num=bools, upper=bools, extra=bools, ter=bools), quick=200, thorough=3000)
def pdb(case, t):
    r = rng(case)
    nat = case['nat']
    sy = [str(x) for x in r.choice(SY, nat)]
    co = np.round(r.uniform(-99, 99, (nat, 3)), 3)
    cc = np.round(np.array(list(r.uniform(2, 99, 3)) + list(r.uniform(60, 120, 3))), 2)
    L = ['HEADER    X', 'REMARK   1 REFERENCE 1.0 2.0 3.0']
    if case['cryst']:
        L.append('CRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 21 21 21   8' % tuple(cc))
    for i in range(nat):
        rec = 'HETATM' if case['het'] and r.random() < .5 else 'ATOM  '
        nm = (sy[i].upper() if case['upper'] else sy[i])
        if case['num']:
            nm += str(int(r.integers(1, 9)))
        l = '%s%5d %-4s %3s %s%4d    %8.3f%8.3f%8.3f' % (rec, i + 1, ' ' + nm if len(nm) < 4 else nm, 'MET', 'A', 1 + i // 3, *co[i])
        if case['extra']:
            l += '%6.2f%6.2f          %2s' % (1, r.uniform(0, 99), sy[i].upper())
        L.append(l)
        if case['ter'] and r.random() < .2:
            L.append('TER')
    L.append('END')
    t.nontrivial(nat > 1)
    with tmpdir() as d:
        fn = os.path.join(d, 'x.pdb')
        open(fn, 'w').write('\n'.join(L) + '\n')
        p = parse.PDBFile(fn)
        p.parse()
        t.eq(p.symbols, sy, 'symbols')
        t.close(p.coords, co, 'coords', rtol=1e-14)
        if case['cryst']:
            t.close(p.cryst_const, cc, 'cryst_const', rtol=1e-14)
        else:
            t.ok(p.cryst_const is None, 'no CRYST1')
        s = io.read_pdb(fn)
        t.eq(s.symbols, sy, 'read_pdb')
        t.close(s.coords, co, 'read_pdb', rtol=1e-14)
        t.eq(s.natoms, nat, 'natoms')
        t.ok((s.cell is None) == (not case['cryst']), 'cell')


def some_obj(r, case, need_cell=True):
    """Structure or Trajectory and its (cells, coords, forces)"""
    nat, ns = case['nat'], case['nstep']
    cell, cf, sy = make(r, nat, case['kind'])
    forces = r.normal(size=(ns, nat, 3)) * 10.0**r.integers(-8, 3) if r.random() < .5 else None
    if forces is not None and r.random() < .3:
        forces[0] = 0
    if r.random() < .3:
        cell = cell + r.normal(size=(3, 3)) * 10.0**r.integers(-8, -3)
    cells = np.array([cell * r.uniform(.9, 1.1) for _ in range(ns)])
    if r.random() < .3:
        cells[:] = cell
    CF = np.array([cf + r.normal(size=cf.shape) * .1 for _ in range(ns)])
    co = np.array([a @ b for a, b in zip(CF, cells)])
    if case['struct']:
        kw = {} if forces is None else dict(forces=forces[0])
        if not need_cell and r.random() < .5:
            o = crys.Structure(coords=co[0], symbols=sy, **kw)
        else:
            o = crys.Structure(coords_frac=CF[0], cell=cells[0], symbols=sy, **kw)
        cells, co, forces = cells[:1], co[:1], None if forces is None else forces[:1]
    else:
        kw = {} if forces is None else dict(forces=forces)
        if not need_cell and r.random() < .5:
            o = crys.Trajectory(coords=co, symbols=sy, **kw)
        else:
            o = crys.Trajectory(coords_frac=CF, cell=cells, symbols=sy, **kw)
    return o, cells, co, forces, sy


tr = dict(seed=seeds, nat=ints(1, 7), nstep=ints(1, 6), kind=cellkinds, struct=bools)


@sub(D(**tr, name=pick([None, 'foo', 'a name'])), quick=200, thorough=3000)
def xyz(case, t):
    r = rng(case)
    o, cells, co, forces, sy = some_obj(r, case, need_cell=False)
    kw = {} if case['name'] is None else dict(name=case['name'])
    t.nontrivial(len(co) > 1)
    with tmpdir() as d:
        fn = os.path.join(d, 'a.xyz')
        open(fn, 'w').write('x' * 9999)
        with t.unchanged(a=o.coords, s=o.symbols):
            io.write_xyz(fn, o, **kw)
        L = open(fn).read().split('\n')
        t.eq(L.pop(), '', 'newline at the end')
        n = case['nat']
        t.eq(len(L), len(co) * (n + 2), 'lines')
        for i in range(len(co)):
            B = L[i * (n + 2):(i + 1) * (n + 2)]
            t.eq(int(B[0]), n, 'natoms of frame')
            t.eq(B[1], (case['name'] or 'pwtools_dummy_mol_name') + '.%i' % (i + 1), 'name and frame number')
            t.eq([b.split()[0] for b in B[2:]], sy, 'symbols')
            got = np.array([[float(x) for x in b.split()[1:]] for b in B[2:]])
            t.close(got, co[i], 'coords of frame %i' % i, rtol=1e-12, atol=1e-12)


@sub(D(**tr), quick=200, thorough=3000)
def axsf(case, t):
    r = rng(case)
    o, cells, co, forces, sy = some_obj(r, case)
    t.nontrivial(len(co) > 1)
    n = case['nat']
    with tmpdir() as d:
        fn = os.path.join(d, 'a.axsf')
        with t.unchanged(a=o.coords, c=o.cell, f=o.forces, s=o.symbols):
            io.write_axsf(fn, o)
        L = [l for l in open(fn).read().split('\n') if l.strip()]
        t.eq(L[0].split(), ['ANIMSTEPS', str(len(co))], 'number of frames')
        t.eq(L[1], 'CRYSTAL', 'CRYSTAL')
        L = L[2:]
        t.eq(len(L), len(co) * (6 + n), 'lines')
        F = None if forces is None else forces * constants.eV / constants.Ha
        for i in range(len(co)):
            B = L[i * (6 + n):(i + 1) * (6 + n)]
            t.eq(B[0].split(), ['PRIMVEC', str(i + 1)], 'PRIMVEC')
            t.close([[float(x) for x in b.split()] for b in B[1:4]], cells[i], 'cell', rtol=1e-12, atol=1e-12)
            t.eq(B[4].split(), ['PRIMCOORD', str(i + 1)], 'PRIMCOORD')
            t.eq(B[5].split(), [str(n), '1'], 'natoms')
            t.eq([b.split()[0] for b in B[6:]], sy, 'symbols')
            got = np.array([[float(x) for x in b.split()[1:]] for b in B[6:]])
            t.shape(got, (n, 3 if F is None else 6), 'columns')
            t.close(got[:, :3], co[i], 'coords', rtol=1e-12, atol=1e-12)
            if F is not None:
                t.close(got[:, 3:], F[i], 'forces', rtol=1e-12, atol=1e-300)


@sub(D(**base, sym=pick([None, 'my.symbols']), sub=bools), quick=200, thorough=3000)
def lammps_data(case, t):
    r = rng(case)
    s = struct(r, case['nat'], case['kind'])
    t.nontrivial(case['nat'] > 1)
    with tmpdir() as d:
        if case['sub']:
            d = os.path.join(d, 'sub')
            os.makedirs(d)
        fn = os.path.join(d, 'lmp.struct')
        kw = {} if case['sym'] is None else dict(symbolsbasename=case['sym'])
        with t.unchanged(cf=s.coords_frac, co=s.coords, cell=s.cell, sy=s.symbols):
            if r.random() < .3:
                open(os.path.join(d, case['sym'] or 'lmp.struct.symbols'), 'w').write('Xx\n' * 50)
                open(fn, 'w').write('old\n' * 500)
            if r.random() < .3:
                cwd = os.getcwd()
                os.chdir(d)
                try:
                    io.write_lammps('lmp.struct', s, **kw)
                finally:
                    os.chdir(cwd)
            else:
                io.write_lammps(fn, s, **kw)
        t.eq(sorted(os.listdir(d)), sorted(['lmp.struct', case['sym'] or 'lmp.struct.symbols']), 'files')
        t.eq(open(os.path.join(d, case['sym'] or 'lmp.struct.symbols')).read().split(), s.symbols, 'symbols file')
        L = [l.strip() for l in open(fn).read().split('\n')][1:]
        L = [l for l in L if l]
        uniq = sorted(set(s.symbols))
        t.eq(L[0].split(), [str(case['nat']), 'atoms'], 'natoms')
        t.eq(L[1].split(), [str(len(uniq)), 'atom', 'types'], 'types')
        C = np.zeros((3, 3))
        for k in range(3):
            w = L[2 + k].split()
            t.eq(w[2:], ['xyz'[k] + 'lo', 'xyz'[k] + 'hi'], 'box line')
            t.ok(float(w[0]) == 0, 'lower bound')
            C[k, k] = float(w[1])
        w = L[5].split()
        t.eq(w[3:], ['xy', 'xz', 'yz'], 'tilts')
        C[1, 0], C[2, 0], C[2, 1] = [float(x) for x in w[:3]]
        t.close(cc_of(C), cc_of(s.cell), 'box has the lattice constants of the cell', rtol=1e-8)
        t.eq(L[6], 'Atoms', 'section')
        A = [l.split() for l in L[7:7 + case['nat']]]
        t.eq([int(a[0]) for a in A], list(range(1, case['nat'] + 1)), 'atom numbers')
        t.eq([uniq[int(a[1]) - 1] for a in A], s.symbols, 'types')
        co = np.array([[float(x) for x in a[2:]] for a in A])
        t.close(co @ np.linalg.inv(C), s.coords_frac, 'atoms have the same fractional coords', rtol=1e-7, atol=1e-7)
        t.eq(L[7 + case['nat']], 'Masses', 'section')
        M = [l.split() for l in L[8 + case['nat']:]]
        t.eq([int(m[0]) for m in M], list(range(1, len(uniq) + 1)), 'mass types')
        t.close([float(m[1]) for m in M], gen.mass_of(uniq), 'masses', rtol=2e-3)
        t.eq(lammps.struct_str(s).split('\n')[1:], open(fn).read().split('\n')[1:], 'struct_str')


@sub(D(**base, lat=pick([None, 'F', 'CXY'])), quick=100, thorough=1500)
def sgroup(case, t):
    r = rng(case)
    s = struct(r, case['nat'], case['kind'])
    kw = {} if case['lat'] is None else dict(lat_symbol=case['lat'])
    t.nontrivial(case['nat'] > 1)
    with tmpdir() as d:
        fn = os.path.join(d, 'x')
        with t.unchanged(cf=s.coords_frac, cell=s.cell, sy=s.symbols):
            io.write_wien_sgroup(fn, s, **kw)
        txt = open(fn).read()
        t.eq(io.wien_sgroup_input(s, **kw), txt, 'wien_sgroup_input')
        L = [l.split('/')[0].strip() for l in txt.split('\n')]
        L = [l for l in L if l]
        t.eq(L[0], case['lat'] or 'P', 'lattice symbol')
        t.close([float(x) for x in L[1].split()], cc_of(s.cell), 'lattice constants', rtol=1e-9)
        t.eq(int(L[2]), case['nat'], 'natoms')
        t.eq(len(L), 3 + 2 * case['nat'], 'lines')
        t.eq(L[4::2], s.symbols, 'symbols')
        t.close([[float(x) for x in l.split()] for l in L[3::2]], s.coords_frac, 'coords', rtol=1e-14, atol=1e-300)
