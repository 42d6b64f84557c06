"""Generators of MD-code output (pw.x, CP2K, CPMD, LAMMPS) with the values a parser has to return.

Each gen_* function returns a Run: files to write, the main file name, raw values per parser attribute
(in the units of the code) and the container values (eV, Angstrom, GPa, fs).
"""
from pv import *
import struct, warnings
import scipy.constants as _sc
RY = _sc.value('Rydberg constant times hc in eV')
BOHR = _sc.value('Bohr radius') * 1e10
TRYD = 2 * _sc.value('atomic unit of time') * 1e15
UT = dict(rtol=3e-6, atol=1e-12)
SY = ['H', 'C', 'N', 'O', 'F', 'P', 'S', 'K', 'Al', 'Si', 'Fe', 'Cl', 'Zn', 'Br', 'V', 'I', 'W', 'Cs', 'Ce', 'Sn', 'Hf', 'Au', 'Pb', 'U']


def fm(x, w, d):
    return '%*.*f' % (w, d, x)


def fl(a, d):
    """the values as they appear in print"""
    a = np.asarray(a, float)
    return np.array([float('%.*f' % (d, x)) for x in a.ravel()]).reshape(a.shape)


NOISE = ['', '     End of self-consistent calculation', '     total cpu time spent up to now is     12.21 secs', '     iteration #  4     ecut=    25.00 Ry     beta=0.70',
         '     total energy              =     -77.77777777 Ry', '     negative rho (up, down):  0.102E-02 0.000E+00', '     k =-0.1250 0.1250 0.1250 (   200 PWs)   bands (ev):',
         '     Smooth grid: 1000 G-vectors', '     estimated scf accuracy    <       0.00000012 Ry', '     WARNING: 12 eigenvalues not converged', '     kinetic-energy cutoff     =      25.0000  Ry',
         '     The total energy is the sum of the following terms:', '     one-electron contribution =       4.79 Ry', '   -5.8092   6.2550   6.2550   6.2550']


def noise(r, n=3):
    return ''.join(NOISE[i] + '\n' for i in r.integers(0, len(NOISE), int(r.integers(0, n + 1))))


class Gen:
    def __init__(self, r, nat, kind):
        self.r, self.nat = r, nat
        self.alat = float('%.4f' % r.uniform(2, 20))
        self.style = str(r.choice(['a_0', 'alat']))
        self.cell = fl(make_cell(kind, int(r.integers(2**31))) / 5.0, 6)
        self.coords = fl(r.uniform(-2, 2, (nat, 3)), 7)
        self.symbols = [str(x) for x in r.choice(SY, nat)]
        self.nk = int(r.integers(1, 5000))

    def header(self, nk=True, natoms=True):
        r, s = self.r, self.style
        o = '\n     Program PWSCF     v.4.1    starts ...\n     Today is 19Nov2026 at 12: 0: 0\n' + noise(r)
        o += '     bravais-lattice index     =            2\n     lattice parameter (%s)   =   %s  a.u.\n' % (s, fm(self.alat, 10, 4))
        o += '     unit-cell volume          =     270.2136 (a.u.)^3\n'
        if natoms:
            o += '     number of atoms/cell      = %12d\n' % self.nat
        o += '     number of atomic types    =            1\n     number of electrons       =         8.00\n     number of iterations used =            8  plain     mixing\n'
        o += '     celldm(1)=  10.262600  celldm(2)=   0.000000  celldm(3)=   0.000000\n\n'
        o += '     crystal axes: (cart. coord. in units of %s)\n' % s
        for i in range(3):
            o += '               a(%d) = ( %s )  \n' % (i + 1, ' '.join(fm(x, 9, 6) for x in self.cell[i]))
        o += '\n     reciprocal axes: (cart. coord. in units 2 pi/%s)\n' % s
        for i in range(3):
            o += '               b(%d) = ( -1.000000 -1.000000  1.000000 )  \n' % (i + 1)
        o += '\n     Cartesian axes\n\n     site n.     atom                  positions (%s units)\n' % s
        for i in range(self.nat):
            o += '%10d           %-2s  tau(%3d) = ( %s  )\n' % (i + 1, self.symbols[i], i + 1, ' '.join(fm(x, 11, 7) for x in self.coords[i]))
        o += '\n'
        if nk:
            o += '     number of k points=%5d%s\n' % (self.nk, str(r.choice(['', '  gaussian smearing, width (Ry)=  0.0500'])))
        return o + '                       cart. coord. in units 2pi/%s\n        k(    1) = (   0.0000000   0.0000000   0.0000000), wk =   2.0000000\n' % s

    def scf(self, etot=True, conv=True, forces=True, stress=True, nblock=1):
        """one electronic minimisation; values in dict, text"""
        r, nat = self.r, self.nat
        v, o = {}, noise(r, 5)
        if etot:
            v['etot'] = float('%.8f' % (-r.uniform(0, 10) ** r.integers(0, 5)))
            o += '!    total energy              =%17s Ry\n     Harris-Foulkes estimate   =     -19.00539050 Ry\n' % ('%.8f' % v['etot'])
        o += noise(r)
        if conv:
            v['nstep_scf'] = int(r.integers(1, 150))
            o += '     convergence has been achieved in %3d iterations\n' % v['nstep_scf']
        if forces:
            allf = []
            o += '\n     Forces acting on atoms (Ry/au):\n\n'
            for b in range(nblock):
                if b:
                    o += '     The %s contrib.  to forces\n' % ['non-local', 'ionic', 'local', 'core'][b % 4]
                f = fl(r.normal(size=(nat, 3)) * 10.0 ** r.integers(-6, 2), 8)
                for i in range(nat):
                    o += '     atom %4d type %2d   force = %s\n' % (i + 1, 1, ' '.join(fm(x, 14, 8) for x in f[i]))
                allf.append(f)
            v['forces'] = allf[0]
            v['allforces'] = np.concatenate(allf)
            o += '\n     Total force =     0.000000     Total SCF correction =     0.000018\n'
        o += noise(r)
        if stress:
            s = fl(r.normal(size=(3, 3)) * 10.0 ** r.integers(-1, 4), 2)
            v['stress'] = s
            o += '\n     entering subroutine stress ...\n\n          total   stress  (Ry/bohr**3)                   (kbar)     P=%8s\n' % ('%.2f' % (np.trace(s) / 3))
            for i in range(3):
                o += ' '.join(fm(x / 147105., 12, 8) for x in s[i]) + '   ' + ' '.join(fm(x, 11, 2) for x in s[i]) + '\n'
            o += '\n'
        return v, o


def opt(r, p=.75):
    return bool(r.random() < p)


def getters(t, p, exp, r):
    """getters called in random order on an own instance and via parse()"""
    for k in r.permutation(sorted(exp)):
        k = str(k)
        p.try_set_attr(k)
        cmpv(t, getattr(p, k), exp[k], 'attribute ' + k)
    p.parse()
    for k in exp:
        cmpv(t, getattr(p, k), exp[k], 'after parse() ' + k)


def cmpv(t, a, b, msg, rtol=1e-12, atol=0):
    if b is None:
        t.ok(a is None, '%s: %s, but it is not in the file' % (msg, short(a)))
    elif isinstance(b, (list, str, bool)):
        t.eq(a, b, msg)
    else:
        t.ok(a is not None, msg + ' is missing')
        t.close(a, b, msg, rtol=rtol, atol=atol)


# ---- other codes ----
HA = _sc.value('Hartree energy in eV')
THART = _sc.value('atomic unit of time') * 1e15
KB = _sc.Boltzmann
FHB = HA / BOHR                      # Ha/Bohr -> eV/Angstrom
VAU = BOHR / THART                   # Bohr/thart -> Angstrom/fs


class Run:
    """files: name -> text or bytes; main: file to parse; exp: raw values of the parser; cont: container values"""
    def __init__(self, main, cls, reader, traj):
        self.main, self.cls, self.reader, self.traj = main, cls, reader, traj
        self.files, self.exp, self.cont, self.kw = {}, {}, {}, {}

    def write(self, d):
        for k, v in self.files.items():
            with open(os.path.join(d, k), 'wb') as f:
                f.write(v if isinstance(v, bytes) else v.encode())
        return os.path.join(d, self.main)

    def put(self, key, val, fac=1.0, cont=None):
        self.exp[key] = val
        if cont is not False:
            self.cont[key] = val if (val is None or isinstance(val, (list, str, bool))) else np.asarray(val) * fac


# ---- DCD ---------------------------------------------------------------------------------------
def _blk(b):
    return struct.pack('<i', len(b)) + b + struct.pack('<i', len(b))


def dcd_file(cc, co, cosines, timestep=0.5, nset=None):
    """cc (n,6) a,b,c,alpha,beta,gamma; co (n,nat,3) float32"""
    n, nat = co.shape[:2]
    out = _blk(b'CORD' + struct.pack('<9i', n if nset is None else nset, 1, 10, *[0] * 6) + struct.pack('<f', timestep) + struct.pack('<10i', *([1] + [0] * 8 + [24])))
    out += _blk(struct.pack('<i', 2) + b'REMARK one'.ljust(80) + b'REMARK two'.ljust(80)) + _blk(struct.pack('<i', nat))
    for c, x in zip(cc, co):
        a, b, cl, al, be, ga = c
        if cosines:
            al, be, ga = np.cos(np.radians([al, be, ga]))
        out += _blk(struct.pack('<6d', a, ga, b, be, al, cl))
        for k in range(3):
            out += _blk(np.ascontiguousarray(x[:, k]).astype('<f4').tobytes())
    return out


def cc_of_cells(cells):
    n = np.linalg.norm(cells, axis=-1)
    an = lambda i, j: np.degrees(np.arccos(np.clip((cells[:, i] * cells[:, j]).sum(-1) / n[:, i] / n[:, j], -1, 1)))
    return np.column_stack([n[:, 0], n[:, 1], n[:, 2], an(1, 2), an(0, 2), an(0, 1)])


# ---- CP2K --------------------------------------------------------------------------------------
CP2K_NOISE = ['', '  *** SCF run converged in     7 steps ***', '  Electronic density on regular grids:        -16.0000000000        0.0000000000', ' Total energy:                                                -23.41',
              ' MD_ENERGIES| Initialization proceeding', '  1 P_Mix/Diag. 0.40E+00    3.1     0.23     -23.40   -2.34E+01', ' GLOBAL| Method name                                                        CP2K',
              ' GLOBAL| Project name                                                    PROJECT', ' CELL| Volume [angstrom^3]:                                               41.82']


def cnoise(r, lst, n=3):
    return ''.join(lst[i] + '\n' for i in r.integers(0, len(lst), int(r.integers(0, n + 1))))


def cp2k_forces_block(symbols, f):
    o = '\n ATOMIC FORCES in [a.u.]\n\n # Atom   Kind   Element          X              Y              Z\n'
    for i, s in enumerate(symbols):
        o += '%7d%7d      %-2s%s\n' % (i + 1, 1 + i % 2, s, ''.join(fm(x, 15, 8) for x in f[i]))
    return o + ' SUM OF ATOMIC FORCES%s%15.8f\n\n' % (''.join(fm(x, 15, 8) for x in f.sum(0)), 0.123)


def cp2k_head(r, run_type, nat=None, ts=None):
    o = ' **** **** ******  **  PROGRAM STARTED AT               2026-11-19 12:00:00.000\n' + cnoise(r, CP2K_NOISE)
    o += ' GLOBAL| Run type                                            %20s\n GLOBAL| Global print level                                                  LOW\n' % run_type
    if nat is not None:
        o += ' TOTAL NUMBERS AND MAXIMUM NUMBERS\n\n  Total number of            - Atomic kinds:                                   2\n'
        o += '                             - Atoms:                          %10d\n' % nat if r.random() < 0 else ''
        o += '        Number of atoms:               %12d\n        Number of molecule kinds:                2\n' % nat
    if ts is not None:
        o += ' MD| Molecular Dynamics Protocol \n MD| Ensemble Type                                                         NPT_F\n'
        o += ' MD| Number of Time Steps                                                     10\n MD| Time Step [fs] %60.2f\n MD| Temperature [K]                                                     1500.00\n' % ts
    return o


def gen_cp2k_scf(r, nat=None):
    from pwtools import parse, io
    nat = int(r.integers(1, 12)) if nat is None else nat
    R = Run('cp2k.out', parse.Cp2kSCFOutputFile, io.read_cp2k_scf, False)
    sy = [str(x) for x in r.choice(SY, nat)]
    o = cp2k_head(r, 'ENERGY_FORCE', nat if opt(r) else None)
    e = float('%.15f' % (-r.uniform(0, 10)**r.integers(0, 5))) if opt(r) else None
    if e is not None and nat % 4 == 0:
        e = -e                                          # classical force fields
    if e is not None:
        o += cnoise(r, CP2K_NOISE) + '\n ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):%34.15f\n\n' % e
    f = fl(r.normal(size=(nat, 3)) * 10.0**r.integers(-5, 2), 8) if opt(r) else None
    if f is not None:
        o += cp2k_forces_block(sy, f)
    o += cnoise(r, CP2K_NOISE)
    s = fl(r.normal(size=(3, 3)) * 10.0**r.integers(-2, 3), 8) if opt(r) else None
    if s is not None:
        o += '\n STRESS TENSOR [GPa]\n\n            X               Y               Z\n' + ''.join('  %s%s\n' % (c, ''.join(fm(x, 16, 8) for x in row)) for c, row in zip('XYZ', s))
        o += '\n 1/3 Trace(stress tensor):  %.8E\n\n Det(stress tensor)      :  1.0E+00\n' % (np.trace(s) / 3)
    o += cnoise(r, CP2K_NOISE)
    R.files['cp2k.out'] = o
    R.put('etot', e, HA)
    R.put('forces', f, FHB)
    R.put('stress', s, 1.0)
    R.put('natoms', nat if f is not None else None, cont=False)
    R.put('symbols', sy if f is not None else None, cont=False)
    if f is not None:
        R.cont['symbols'] = sy
    return R


def xyz_frames(r, symbols, arr, step0, dt, en, md=True, dec=10):
    o = ''
    for k, x in enumerate(arr):
        o += '%8d\n' % len(symbols)
        o += ' i = %8d, time = %12.3f, E = %20.10f\n' % (step0 + k, dt * k, en[k]) if md else ' i = %8d, E = %20.10f\n' % (step0 + k, en[k])
        o += ''.join(' %2s%s\n' % (s, ''.join(fm(v, 20, dec) for v in row)) for s, row in zip(symbols, x))
    return o


def step_table(head, arr, step0, dt, w=20, dec=10):
    return head + '\n' + ''.join('%8d%12.3f%s\n' % (step0 + k, dt * k, ''.join(fm(x, w, dec) for x in np.ravel(row))) for k, row in enumerate(arr))


def gen_cp2k_md(r, nat=None, nstep=None, dcd=False, kind=None):
    from pwtools import parse, io
    nat = int(r.integers(1, 10)) if nat is None else nat
    n = int(r.integers(1, 8)) if nstep is None else nstep
    R = Run('cp2k.out', parse.Cp2kDcdMDOutputFile if dcd else parse.Cp2kMDOutputFile, io.read_cp2k_md_dcd if dcd else io.read_cp2k_md, True)
    sy = [str(x) for x in r.choice(SY, nat)]
    ts = float('%.2f' % r.uniform(.1, 20))
    o = cp2k_head(r, 'MD', nat, ts)
    en = fl(-r.uniform(0, 1000, n), 10)
    step0 = int(r.choice([0, 1, r.integers(0, 1000), 9998, 99995]))
    cells = fl(np.array([make_cell(kind or 'triclinic', int(r.integers(2**31))) for _ in range(n)]), 10)
    co = fl(r.uniform(-12, 12, (n, nat, 3)), 10)
    pos = True if dcd else opt(r, .9)
    cell = opt(r)
    if cell:
        R.files['PROJECT-1.cell'] = step_table('#   Step   Time [fs]       Ax [Angstrom]       Ay [Angstrom]', [np.append(c, abs(np.linalg.det(c))) for c in cells], step0, ts)
    if dcd:
        cc = np.concatenate([r.uniform(3, 30, (n, 3)), r.uniform(60, 120, (n, 3))], axis=1)
        co = co.astype(np.float32)
        R.files['PROJECT-pos-1.dcd'] = dcd_file(cc, co, False, ts, nset=0)
        R.put('cryst_const', cc)
        R.put('cell', None, cont=False) if False else None
        R.put('coords', co)
    else:
        R.put('cell', cells if cell else None)
        if pos:
            R.files['PROJECT-pos-1.xyz'] = xyz_frames(r, sy, co, step0, ts, en)
        R.put('coords', co if pos else None)
    # forces: own file or in the output
    f = fl(r.normal(size=(n, nat, 3)) * 10.0**r.integers(-4, 2), 10)
    fw = str(r.choice(['file', 'out', 'no', 'both']))
    fo = fl(f + 1 if fw == 'both' else f, 8)
    if fw in ('file', 'both'):
        R.files['PROJECT-frc-1.xyz'] = xyz_frames(r, sy, f, step0, ts, en)
    for k in range(n):
        o += cnoise(r, CP2K_NOISE) + '\n ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):%34.15f\n\n' % en[k]
        if fw in ('out', 'both'):
            o += cp2k_forces_block(sy, fo[k])
        o += ' *****************************\n ENSEMBLE TYPE                =                 NPT_F\n STEP NUMBER                  =                     %d\n' % k
    R.put('forces', dict(file=f, both=f, out=fo, no=None)[fw], FHB)
    vel = opt(r)
    v = fl(r.normal(size=(n, nat, 3)) * 1e-3, 10)
    if vel:
        R.files['PROJECT-vel-1.xyz'] = xyz_frames(r, sy, v, step0, ts, en)
        R.put('velocity', v, VAU)
    else:
        R.put('velocity', None, cont=False)
    ener = opt(r)
    E = fl(np.column_stack([r.uniform(0, 1, n), r.uniform(0, 9000, n), en, en + r.uniform(0, 1, n)]), 9)
    if ener:
        R.files['PROJECT-1.ener'] = '#     Step Nr.          Time[fs]        Kin.[a.u.]          Temp[K]            Pot.[a.u.]        Cons Qty[a.u.]        UsedTime[s]\n' + ''.join(
            '%10d%20.6f%s%20.9f\n' % (step0 + k, ts * k, ''.join(fm(x, 20, 9) for x in row), 13.78) for k, row in enumerate(E))
    for j, (k, fac) in enumerate([('ekin', HA), ('temperature', 1.0), ('etot', HA), ('econst', None)]):
        R.put(k, E[:, j] if ener else None, fac or 1.0, cont=False if fac is None else None)
    st_ = opt(r)
    S = fl(r.normal(size=(n, 3, 3)) * 10.0**r.integers(2, 6), 10)
    if st_:
        R.files['PROJECT-1.stress'] = step_table('#   Step   Time [fs]            xx [bar]            xy [bar]', S, step0, ts, w=25)
    R.put('stress', S if st_ else None, 1e-4)
    R.put('timestep', ts)
    R.put('natoms', nat, cont=False)
    have = (pos and not dcd) or fw in ('file', 'both') or vel
    R.put('symbols', sy if have else None)
    R.files['cp2k.out'] = o
    R.nstep, R.volume = n, (np.abs(np.linalg.det(cells)) if cell and not dcd else None)
    R.anything = pos or cell or ener or st_ or vel or fw != 'no'
    return R


def gen_cp2k_relax(r, nat=None, nstep=None, kind=None, geo=False):
    from pwtools import parse, io
    nat = int(r.integers(1, 10)) if nat is None else nat
    n = int(r.integers(2, 8)) if nstep is None else nstep
    R = Run('cp2k.out', parse.Cp2kRelaxOutputFile, io.read_cp2k_relax, True)
    sy = [str(x) for x in r.choice(SY, nat)]
    en = fl(-r.uniform(0, 1000, n), 10)
    cells = fl(np.array([make_cell(kind or 'triclinic', int(r.integers(2**31))) for _ in range(n)]), 10)
    nc = n if geo else n - 1
    R.files['PROJECT-1.cell'] = step_table('#   Step   Time [fs]       Ax [Angstrom]', [np.append(c, abs(np.linalg.det(c))) for c in cells[:nc]], 1, 0)
    co = fl(r.uniform(-12, 12, (n, nat, 3)), 10)
    R.files['PROJECT-pos-1.xyz'] = xyz_frames(r, sy, co, 1, 0, en, md=False)
    S = fl(r.normal(size=(nc, 3, 3)) * 1e4, 10)
    st_ = opt(r)
    if st_:
        R.files['PROJECT-1.stress'] = step_table('#   Step   Time [fs]            xx [bar]', S, 1, 0, w=25)
    R.put('stress', S if st_ else None, 1e-4, cont=None if (geo or not st_) else False)
    R.files['cp2k.out'] = cp2k_head(r, 'GEO_OPT' if geo else 'CELL_OPT') + cnoise(r, CP2K_NOISE)
    if not geo:
        cells[-1] = cells[-2]
    R.put('cell', cells)
    R.put('coords', co)
    R.put('etot', en, HA)
    R.put('natoms', nat, cont=False)
    R.put('symbols', sy)
    R.put('timestep', None)
    R.put('ekin', None)
    R.put('temperature', None)
    R.nstep = n
    return R


# ---- CPMD --------------------------------------------------------------------------------------
CPMD_NOISE = ['', '      ATOM             COORDINATES                   CHARGES', ' CELL DIMENSION:  5.9098  1.7321  1.6028  0.0000  0.0000  0.5000', ' NFI      GEMAX       CNORM           ETOT        DETOT      TCPU',
              ' (K+E1+L+N+X)           TOTAL ENERGY IS FINE', ' (E1=A-S+R)     ELECTROSTATIC ENERGY =           -5.12 A.U.', ' *** CLDLEV| SIZE OF THE PROGRAM IS  120304/ 473508 kBYTES ***', ' TEMPERATURE TOLERANCE:   300.0']


def gen_cpmd_scf(r, nat=None, kind=None):
    from pwtools import parse, io
    nat = int(r.integers(1, 12)) if nat is None else nat
    R = Run('cpmd.out', parse.CpmdSCFOutputFile, io.read_cpmd_scf, False)
    sy = [str(x) for x in r.choice(SY, nat)]
    geom = True
    o = cnoise(r, CPMD_NOISE, 5)
    nk = int(r.integers(1, 900)) if opt(r) else None
    if nk is not None:
        o += ' NUMBER OF SPECIAL K POINTS (IN CARTESIAN COORDINATES):%5d\n' % nk
    nblock = int(r.integers(1, 3))
    f, e, s = None, None, None
    have = dict(f=opt(r), e=opt(r), s=opt(r))
    conv = opt(r)
    for b in range(nblock):                        # the last one counts
        if have['f']:
            x = r.uniform(-9, 30, (nat, 3))
            m = r.normal(size=(nat, 3)) * 10.0**r.integers(-6, 1)
            f = np.array([[float('%.3E' % v) for v in row] for row in m])
            o += '\n   ATOM          COORDINATES            GRADIENTS (-FORCES)\n'
            o += ''.join('%4d %2s%s  %s\n' % (i + 1, sy[i], ''.join(fm(v, 8, 4) for v in x[i]), ''.join('%11.3E' % v for v in f[i])) for i in range(nat))
        o += '\n ****************************************************************\n' + cnoise(r, CPMD_NOISE)
        if have['s']:
            s = np.array([[float('%.8E' % v) for v in row] for row in r.normal(size=(3, 3)) * 100])
            o += ' TOTAL STRESS TENSOR (kBar):\n' + ''.join('    ' + ''.join('%20.8E' % v for v in row) + '\n' for row in s) + ' \n'
        if have['e']:
            e = float('%.8f' % -r.uniform(1, 4000))
            o += ' (K+E1+L+N+X)           TOTAL ENERGY =%20.8f A.U.\n' % e
    ns = int(r.integers(1, 200))
    if opt(r, .9):
        o += '%4d  8.871E-08   1.069E-08      -187.332417   0.000E+00     13.35\n\n RESTART INFORMATION WRITTEN ON FILE                    ./RESTART.1\n' % ns
        # the parser takes the line two lines above
    else:
        ns = None
    if not conv:
        o += ' BUT NO CONVERGENCE IN  100 STEPS !\n'
    o += cnoise(r, CPMD_NOISE)
    cell = fl(make_cell(kind or 'triclinic', int(r.integers(2**31))), 12)
    cf = fl(r.uniform(-.2, 1.2, (nat, 3)), 12)
    R.files['GEOMETRY'] = cpmd_geometry(r, cf @ cell, cell)
    R.files['GEOMETRY.scale'] = cpmd_scale(cell, cf, sy)
    R.files['cpmd.out'] = o
    R.put('cell', cell, BOHR)
    R.put('coords_frac', cf)
    R.put('symbols', sy)
    R.put('natoms', nat, cont=False)
    R.put('etot', e, HA)
    R.put('forces', f, FHB)
    R.put('stress', s, 0.1)
    R.put('nkpoints', nk, cont=False)
    R.put('nstep_scf', ns, cont=False)
    R.put('scf_converged', conv, cont=False)
    return R


def cpmd_geometry(r, x, cell, extra=None):
    o = ''.join(''.join(fm(v, 20, 12) for v in row) + '    ' + ''.join(fm(v, 20, 12) for v in 1e-4 * r.normal(size=3)) + '\n' for row in x)
    if (opt(r, .4) if extra is None else extra):
        for row in cell[:2]:
            o += ' '.join('%22.15E' % v for v in row) + '\n' + ' '.join('%22.15E' % v for v in row * 1e-4) + '\n'
    return o


def cpmd_scale(cell, cf, sy):
    m = lambda a: ''.join('%s\n' % ''.join(fm(v, 20, 12) for v in row) for row in a)
    cnt, lines = {}, ''
    for row, s in zip(cf, sy):
        cnt[s] = cnt.get(s, 0) + 1
        lines += ''.join(fm(v, 20, 12) for v in row) + '         %2s%7d\n' % (s, cnt[s])
    return 'CELL MATRIX (BOHR)\n' + m(cell) + '\nCELL MATRIX (ANGSTROM)\n' + m(cell * BOHR) + '\nSCALED ATOMIC COORDINATES\n' + lines


def gen_cpmd_md(r, nat=None, nstep=None, kind=None):
    from pwtools import parse, io
    nat = int(r.integers(1, 9)) if nat is None else nat
    n = int(r.integers(1, 8)) if nstep is None else nstep
    R = Run('cpmd.out', parse.CpmdMDOutputFile, io.read_cpmd_md, True)
    sy = [str(x) for x in r.choice(SY, nat)]
    cell = fl(make_cell(kind or 'triclinic', int(r.integers(2**31))), 12)
    ts = float('%.4f' % r.uniform(.5, 100))
    R.files['cpmd.out'] = cnoise(r, CPMD_NOISE, 5) + ' TIME STEP FOR ELECTRONS:                        %20.4f\n TIME STEP FOR IONS:                             %20.4f\n' % (99.0, ts) + cnoise(r, CPMD_NOISE, 5)
    co = fl(r.uniform(-20, 20, (n, nat, 3)), 14)
    R.files['GEOMETRY'] = cpmd_geometry(r, co[-1], cell)
    R.files['GEOMETRY.scale'] = cpmd_scale(cell, fl(co[-1] @ np.linalg.inv(cell), 12), sy)
    R.put('natoms', nat, cont=False)
    R.put('symbols', sy)
    R.put('timestep', ts, THART)
    # trajectory; the steps written after a restart, or every k-th step only
    first, every = int(r.choice([1, 1, 2, 998, 99990])), int(r.choice([1, 1, 5, 100]))
    nfi = first + every * np.arange(n)
    v = fl(r.normal(size=(n, nat, 3)) * 1e-3, 14)
    f = fl(r.normal(size=(n, nat, 3)) * 1e-2, 14)
    which = str(r.choice(['TRAJECTORY', 'FTRAJECTORY', 'both', 'none'], p=[.35, .35, .3, 0]))

    def tr(arrs, names):
        o, new = '', opt(r, .4)
        stop = int(r.integers(0, n))
        for k in range(n):
            if new and k == stop:
                o += '  <<<<<<  NEW DATA  >>>>>>\n'
            for i in range(nat):
                o += '%7d' % nfi[k] + ''.join(fm(x, 22, 14) for a in arrs for x in a[k, i]) + '\n'
        return o
    if which in ('TRAJECTORY', 'both'):
        # FTRAJECTORY is preferred
        R.files['TRAJECTORY'] = tr([co + (7 if which == 'both' else 0), v], 7)
    if which in ('FTRAJECTORY', 'both'):
        R.files['FTRAJECTORY'] = tr([co, v, f], 10)
    none = which == 'none'
    R.put('coords', None if none else co, BOHR)
    R.put('velocity', None if none else v, VAU, cont=False if none else None)
    R.put('forces', f if which in ('FTRAJECTORY', 'both') else None, FHB)
    # energies
    nc = int(r.choice([0, 6, 8, 9]))
    cols = {9: ['nfi', 'ekinc', 'ekinh', 'tempp', 'eks', 'eclassic', 'eham', 'dis', 'tcpu'], 8: ['nfi', 'ekinc', 'tempp', 'eks', 'eclassic', 'eham', 'dis', 'tcpu'],
            6: ['nfi', 'tempp', 'eks', 'eclassic', 'dis', 'tcpu'], 0: []}[nc]
    dec = dict(ekinc=8, ekinh=8, tempp=3, eks=10, eclassic=10, eham=10, dis=6, tcpu=2)
    D = {k: fl(r.uniform(0, 500, n) * (-1 if k[:2] in ('ek', 'ec', 'eh') else 1), dec.get(k, 0)) for k in cols}
    if nc:
        D['nfi'] = nfi
        R.files['ENERGIES'] = ''.join('%10d' % D['nfi'][k] + ''.join('%20.*f' % (dec[c], D[c][k]) for c in cols[1:]) + '\n' for k in range(n))
    g = lambda k: D.get(k)
    R.put('ekin', g('eclassic'), HA)
    R.put('etot', g('eks'), HA)
    R.put('temperature', g('tempp'))
    R.put('econst', g('eham') if 'eham' in D else g('eks'), cont=False)
    R.put('ekin_cell', g('ekinh'), cont=False)
    R.put('ekin_elec', g('ekinc'), cont=False)
    R.put('temperature_cell', None if g('ekinh') is None else g('ekinh') * HA * _sc.e * 2 / 9 / KB, cont=False)
    R.loose = ['temperature_cell']
    # cell and stress
    if opt(r, .5):
        cells = fl(np.array([make_cell(kind or 'triclinic', int(r.integers(2**31))) for _ in range(n)]), 6)
        ncol = int(r.choice([3, 6]))
        R.files['CELL'] = ''.join('   CELL PARAMETERS at Step:%12d\n' % nfi[k] + ''.join('  ' + ''.join(fm(x, 15, 6) for x in row) + ('     ' + ''.join(fm(x, 13, 6) for x in r.normal(size=3)) if ncol == 6 else '') + '\n' for row in cells[k]) for k in range(n))
        R.put('cell', cells, BOHR)
    else:
        R.put('cell', cell, BOHR, cont=False)
        R.cont['cell'] = np.array([cell * BOHR] * n)
    if opt(r, .5):
        m = n if opt(r, .6) else int(r.integers(1, n + 1))
        S = fl(r.normal(size=(m, 3, 3)) * 1000, 8)
        R.files['STRESS'] = ''.join('   TOTAL STRESS TENSOR (kB): Step:%12d\n' % nfi[k] + ''.join('  ' + ''.join(fm(x, 21, 8) for x in row) + '\n' for row in S[k]) for k in range(m))
        R.put('stress', S, 0.1, cont=None if m == n else False)
    else:
        R.put('stress', None, cont=False)
    R.nstep = n
    return R


# ---- LAMMPS ------------------------------------------------------------------------------------
LMP_NOISE = ['', 'WARNING: Resetting reneighboring criteria during minimization (../min.cpp:173)', 'Memory usage per processor = 2.39169 Mbytes', '  1 by 1 by 1 MPI processor grid', 'thermo_modify flush yes', 'thermo 1',
             'Pair  time (%) = 0.00107861 (44.8498)', 'Nlocal:    4 ave 4 max 4 min', 'run 10', 'Setting up run ...', 'fix fix_npt all npt temp 1000 1000 0.01 tri 0 0 0.3 tchain 4', 'velocity all create 300.0 123 rot yes dist gaussian']


def lmp_cell(r, kind='tri'):
    c = np.zeros((3, 3))
    c[np.arange(3), np.arange(3)] = r.uniform(3, 30, 3)
    if kind == 'tri':
        c[1, 0], c[2, 0], c[2, 1] = r.uniform(-1, 1, 3) * .5 * np.array([c[0, 0], c[0, 0], c[1, 1]])
    return c


def gen_lammps(r, nat=None, nstep=None, dcd=False, ortho=False):
    from pwtools import parse, io
    nat = int(r.integers(1, 10)) if nat is None else nat
    n = int(r.integers(1, 8)) if nstep is None else nstep
    R = Run('log.lammps', parse.LammpsDcdMDOutputFile if dcd else parse.LammpsTextMDOutputFile, io.read_lammps_md_dcd if dcd else io.read_lammps_md_txt, True)
    nty = int(r.integers(1, 4))
    tysy = [str(x) for x in r.permutation(SY)[:nty]]
    ty = r.integers(1, nty + 1, nat)
    sy = [tysy[i - 1] for i in ty]
    g = lambda a, p=8: np.array([float('%.*g' % (p, x)) for x in np.ravel(a)]).reshape(np.shape(a))
    how = str(r.choice(['file', 'order', 'element']))
    ts = float('%g' % (10.0**r.uniform(-4, -2))) if opt(r, .8) else None
    o = 'LAMMPS (11 Nov 2013)\nclear\nunits metal\n' + cnoise(r, LMP_NOISE)
    o += 'dump dump_txt all custom 1 lmp.out.dump id type xsu ysu zsu xu yu zu fx fy fz vx vy vz\n'
    if how == 'element':
        o += str(r.choice(['', '##'])) + 'dump_modify dump_xyz element %s\n' % ' '.join(tysy)
    elif how == 'file':
        R.files['lmp.struct.symbols'] = '\n'.join(sy) + str(r.choice(['', '\n']))
        if opt(r, .5):
            o += 'dump_modify dump_xyz element %s\n' % ' '.join(tysy[::-1])     # file has precedence
        if opt(r, .3):
            R.kw['order'] = {s: i + 1 for i, s in enumerate(tysy[::-1])}
    else:
        R.kw['order'] = {tysy[i]: int(i) + 1 for i in r.permutation(nty)}
    o += 'dump_modify dump_txt sort id\n'
    if ts is not None:
        o += 'timestep %g\n' % ts
    cells = g(np.array([lmp_cell(r, 'ortho' if ortho else 'tri') for _ in range(n)]), 9)
    # thermo
    allc = ['Temp', 'Volume', 'PotEng', 'KinEng', 'TotEng', 'Press', 'Pxx', 'Pyy', 'Pzz', 'Pxy', 'Pxz', 'Pyz', 'Cella', 'Cellb', 'Cellc', 'CellAlpha', 'CellBeta', 'CellGamma', 'CPU']
    drop = set()
    for grp in (['Temp'], ['Volume'], ['PotEng'], ['KinEng'], ['Pxz'], ['CellBeta'], ['CPU'], ['Press', 'TotEng']):
        if r.random() < .2:
            drop.update(grp)
    cols = [str(c) for c in r.permutation([c for c in allc if c not in drop])] if opt(r, .5) else [c for c in allc if c not in drop]
    T = {c: g(r.normal(size=n) * 10.0**r.integers(-2, 6)) for c in cols}
    step0, stride = int(r.choice([0, 0, 1, 995, 99998, 123456789])), int(r.choice([1, 1, 5, 1000]))
    cc = g(cc_of_cells(cells))
    for k, c in enumerate(['Cella', 'Cellb', 'Cellc', 'CellAlpha', 'CellBeta', 'CellGamma']):
        if c in T:
            T[c] = cc[:, k]
    if 'Volume' in T:
        T['Volume'] = g(np.abs(np.linalg.det(cells)))
    if 'Temp' in T:
        T['Temp'] = np.abs(T['Temp'])
    cut = sorted(int(x) for x in r.integers(1, n, int(r.integers(0, 3)))) if n > 1 else []
    for a, b in zip([0] + cut, cut + [n]):         # several run commands
        if a == b:
            continue
        o += cnoise(r, LMP_NOISE) + 'Step ' + ' '.join(cols) + ' \n'
        for k in range(a, b):
            o += '%8d ' % (step0 + stride * k) + ' '.join('%12.8g' % T[c][k] for c in cols) + ' \n'
        o += 'Loop time of 0.00274897 on 1 procs (1 MPI x 1 OpenMP) for 10 steps with %d atoms\n\n' % nat + cnoise(r, LMP_NOISE)
    R.files['log.lammps'] = o
    q = lambda c: T.get(c)
    R.put('temperature', q('Temp'))
    R.put('etot', q('PotEng'))
    R.put('ekin', q('KinEng'))
    six = ['Pxx', 'Pyy', 'Pzz', 'Pxy', 'Pxz', 'Pyz']
    if all(c in T for c in six):
        S = np.empty((n, 3, 3))
        for c in six:
            i, j = 'xyz'.index(c[1]), 'xyz'.index(c[2])
            S[:, i, j] = S[:, j, i] = T[c]
    else:
        S = None
    R.put('stress', S, 1e-4)
    R.put('timestep', ts, 1e3)
    R.put('volume', q('Volume'), cont=False)
    sc = fl(r.uniform(-.5, 1.5, (n, nat, 3)), 6)
    x = g(np.einsum('tij,tjk->tik', sc, cells), 7)
    v = g(r.normal(size=(n, nat, 3)) * 10, 6)
    f = g(r.normal(size=(n, nat, 3)) * 10.0**r.integers(-14, 3), 6)
    if dcd:
        x = x.astype(np.float32)
        cd = np.concatenate([r.uniform(3, 30, (n, 3)), r.uniform(60, 120, (n, 3))], axis=1)
        R.files['lmp.out.dcd'] = dcd_file(cd, x, True, 0.5)
        R.put('coords', x)
        R.put('cryst_const', cd)
        R.put('natoms', nat, cont=False)
        R.put('volume', None, cont=False)
        R.loose = ['cryst_const']
        if how != 'file':                          # types only in the text dump
            R.put('symbols', None)
        else:
            R.put('symbols', sy)
        R.nstep = n
        R.cc = cd
        return R
    six = ['Cella', 'Cellb', 'Cellc', 'CellAlpha', 'CellBeta', 'CellGamma']
    R.put('cryst_const', cc if all(c in T for c in six) else None, cont=False)
    grp = [g_ for g_ in (['xsu', 'ysu', 'zsu'], ['xu', 'yu', 'zu'], ['fx', 'fy', 'fz'], ['vx', 'vy', 'vz'], ['xs', 'ys', 'zs']) if opt(r, .8)]
    names = ['id'] + (['type'] if how != 'file' or opt(r) else []) + [c for i in r.permutation(len(grp)) for c in grp[i]]
    A = dict(xs=sc, xsu=sc, xu=x, fx=f, vx=v)
    A = {k[:0] + b + k[1:]: A[k][..., j] for k in A for j, b in enumerate('xyz') if k[0] == 'x'} | {a + 'xyz'[j]: A[a + 'x'][..., j] for a in 'fv' for j in range(3)}
    A['xs'], A['ys'], A['zs'] = [np.remainder(sc[..., j], 1) for j in range(3)]
    d = ''
    move = opt(r, .3)
    lo = g(r.uniform(-5, 5, 3) if move or opt(r, .3) else np.zeros(3), 6)
    for k in range(n):
        c = cells[k]
        if move and k:
            lo = g(r.uniform(-5, 5, 3), 6)
        xy, xz, yz = c[1, 0], c[2, 0], c[2, 1]
        hi = lo + np.diag(c)
        b = [(lo[0] + min(0, xy, xz, xy + xz), hi[0] + max(0, xy, xz, xy + xz), xy), (lo[1] + min(0, yz), hi[1] + max(0, yz), xz), (lo[2], hi[2], yz)]
        d += 'ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\n' % (step0 + stride * k, nat)
        d += 'ITEM: BOX BOUNDS %spp pp pp\n' % ('' if ortho else 'xy xz yz ') + ''.join(' '.join('%.15g' % y for y in (row[:2] if ortho else row)) + '\n' for row in b)
        d += 'ITEM: ATOMS %s \n' % ' '.join(names)
        for i in range(nat):
            d += ' '.join(str(i + 1) if c_ == 'id' else str(ty[i]) if c_ == 'type' else '%.7g' % A[c_][k, i] for c_ in names) + ' \n'
    R.files['lmp.out.dump'] = d
    has = lambda a: a in names
    R.put('natoms', nat, cont=False)
    R.put('symbols', sy)
    R.put('cell', cells)
    R.put('coords_frac', sc if has('xsu') else None, cont=None if has('xsu') else False)
    R.put('coords', x if has('xu') else None, cont=None if has('xu') else False)
    R.put('forces', f if has('fx') else None)
    R.put('velocity', v if has('vx') else None, 1e-3, cont=None if has('vx') else False)
    R.nstep = n
    return R


# ---- pw.x and crystal files as Run -------------------------------------------------------------
def gen_pw_scf(r, nat=None, kind='triclinic'):
    from pwtools import parse, io
    g = Gen(r, int(r.integers(1, 8)) if nat is None else nat, kind)
    R = Run('pw.out', parse.PwSCFOutputFile, io.read_pw_scf, False)
    have = dict(etot=opt(r), forces=opt(r), stress=opt(r))
    v, o = g.scf(**have)
    R.files['pw.out'] = g.header() + o
    R.put('cell', g.cell * g.alat, BOHR)
    R.put('coords', g.coords * g.alat, BOHR)
    R.put('symbols', g.symbols)
    R.put('natoms', g.nat, cont=False)
    R.put('etot', v.get('etot'), RY)
    R.put('forces', v.get('forces'), RY / BOHR)
    R.put('stress', v.get('stress'), 0.1)
    return R


def gen_pw_md(r, nat=None, nstep=None, kind='triclinic', vcmd=False):
    from pwtools import parse, io
    g = Gen(r, int(r.integers(1, 8)) if nat is None else nat, kind)
    n = int(r.integers(1, 5)) if nstep is None else nstep
    R = Run('pw.out', parse.PwVCMDOutputFile if vcmd else parse.PwMDOutputFile, io.read_pw_vcmd if vcmd else io.read_pw_md, True)
    have = dict(etot=opt(r, .9), forces=opt(r), stress=opt(r))
    ts = float('%.2f' % r.uniform(1, 200))
    o = g.header() + '\n     Starting temperature  =   300.00 K\n     Time step             =%9.2f a.u.,%8.4f femto-seconds\n' % (ts, ts * TRYD)
    V, C, X, ek, T = [], [], [], [], []
    cellp, crys_ = opt(r, .6), opt(r, .5)
    for k in range(n):
        o += '\n     Entering Dynamics:    iteration = %5d\n                           time      =    0.0073 pico-seconds\n\n' % (k + 1)
        if cellp:
            C.append(fl(make_cell(kind, int(r.integers(2**31))), 9))
            o += 'CELL_PARAMETERS (bohr)\n' + ''.join(''.join(fm(x, 14, 9) for x in row) + '\n' for row in C[-1])
        X.append(fl(r.uniform(-3, 3, (g.nat, 3)), 9))
        o += '\nATOMIC_POSITIONS (%s)\n' % ('crystal' if crys_ else 'bohr') + ''.join('%-3s%s\n' % (g.symbols[i], ' '.join(fm(x, 16, 9) for x in X[-1][i])) for i in range(g.nat)) + '\n'
        ek.append(float('%.8f' % r.uniform(0, 50)))
        if vcmd:
            T.append(float('%.1f' % r.uniform(0, 2000)))
            o += '     Ekin = %14.8f Ry     T = %6.1f K       Etot = %15.8f\n' % (ek[-1], T[-1], -12.5)
        else:
            T.append(float('%.8f' % r.uniform(0, 2000)))
            o += '     kinetic energy (Ekin) = %14.8f Ry\n     temperature           = %14.8f K \n     Ekin + Etot (const)   = %14.8f Ry\n' % (ek[-1], T[-1], -1309.01983489)
        v, x = g.scf(**have)
        V.append(v)
        o += x
    R.files['pw.out'] = o
    arr = lambda k: np.array([v[k] for v in V]) if k in V[0] else None
    R.put('cell', np.array(C) if cellp else g.cell * g.alat, BOHR, cont=None if cellp else False)
    R.put('coords_frac' if crys_ else 'coords', np.array(X), 1.0 if crys_ else BOHR)
    R.put('symbols', g.symbols)
    R.put('timestep', ts, TRYD)
    R.put('ekin', np.array(ek), RY)
    R.put('temperature', np.array(T))
    R.put('etot', arr('etot'), RY)
    R.put('forces', arr('forces'), RY / BOHR)
    R.put('stress', arr('stress'), 0.1)
    R.nstep = n
    return R


def gen_cif(r, nat=None):
    from pwtools import parse, io
    nat = int(r.integers(1, 8)) if nat is None else nat
    R = Run('x.cif', parse.CifFile, io.read_cif, False)
    cc = np.append(fl(r.uniform(2, 30, 3), 6), fl(r.uniform(70, 110, 3), 6))
    cf = fl(r.uniform(-1, 2, (nat, 3)), 9)
    sy = [str(x) for x in r.choice(SY, nat)]
    R.files['x.cif'] = ('data_%s\n' % r.choice(['x', 'pwtools', 'A1']) + ''.join('_cell_%s %.6f\n' % (k, v) for k, v in zip(['length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma'], cc))
                        + 'loop_\n_atom_site_label\n_atom_site_fract_x\n_atom_site_fract_y\n_atom_site_fract_z\n' + ''.join('%s%d %.9f %.9f %.9f\n' % (s, i, *x) for i, (s, x) in enumerate(zip(sy, cf))))
    R.put('cryst_const', cc)
    R.put('coords_frac', cf)
    R.put('symbols', sy)
    return R


def gen_pdb(r, nat=None):
    from pwtools import parse, io
    nat = int(r.integers(1, 8)) if nat is None else nat
    R = Run('x.pdb', parse.PDBFile, io.read_pdb, False)
    cc = np.append(fl(r.uniform(2, 30, 3), 3), fl(r.uniform(70, 110, 3), 2))
    x = fl(r.uniform(-30, 30, (nat, 3)), 3)
    sy = [str(s) for s in r.choice(['H', 'C', 'N', 'O'], nat)]
    R.files['x.pdb'] = 'HEADER    x\nCRYST1%9.3f%9.3f%9.3f%7.2f%7.2f%7.2f P 1           1\n' % tuple(cc) + ''.join(
        'ATOM  %5d %-4s MOL H   0    %8.3f%8.3f%8.3f  1.00  1.00\n' % (i + 1, s, *y) for i, (s, y) in enumerate(zip(sy, x))) + 'END\n'
    R.put('cryst_const', cc)
    R.put('coords', x)
    R.put('symbols', sy)
    return R


def check_run(t, R, d, r):
    """parser attributes (random order, then parse()) and container"""
    fn = R.write(d)
    before = {k: open(os.path.join(d, k), 'rb').read() for k in sorted(R.files)}
    loose = getattr(R, 'loose', [])
    for second in (False, True):
        p = R.cls(fn, **R.kw)
        if second:
            p.parse()
        for k in r.permutation(sorted(R.exp)):
            k = str(k)
            if not second:
                p.try_set_attr(k)
            lo = dict(rtol=1e-5, atol=1e-9) if k in loose else dict(rtol=1e-11, atol=1e-11)
            cmpv(t, getattr(p, k), R.exp[k], '%s %s of %s' % ('parse()' if second else 'attribute', k, R.cls.__name__), **lo)
    t.eq({k: open(os.path.join(d, k), 'rb').read() for k in sorted(os.listdir(d))}, before, 'files unchanged')
    s = R.reader(fn, **R.kw)
    derived = ('ekin', 'temperature', 'velocity', 'cell', 'cryst_const', 'coords', 'coords_frac')
    for k in sorted(R.cont):
        if R.cont[k] is None and k in derived:     # the container may calculate it from other data
            continue
        cmpv(t, getattr(s, k), R.cont[k], 'container %s' % k, **(UT if k not in loose else dict(rtol=1e-5, atol=1e-9)))
    st_ = R.cont.get('stress')
    if st_ is not None:
        t.close(s.pressure, np.trace(st_, axis1=-2, axis2=-1) / 3, 'pressure', rtol=3e-6, atol=1e-9)
    return s


__all__ = [k for k in list(globals()) if not k.startswith('__')]
