"""Stand-ins for pw.x and lmp: read the input file like the real program, evaluate a pair potential,
write the output in the real format.  Usage: fakeqm.py pw in out | fakeqm.py lmp < in > out"""
import json, math, os, re, sys

RC = 4.0
RY = 13.605693122994
BOHR = 0.529177210903
EVA3 = 160.21766208     # eV/Ang^3 in GPa


def charge(sy):
    return sum((i + 1) * ord(c) for i, c in enumerate(sy)) / 100.0


def pair(cell, pos, q):
    """energy (eV), forces (eV/Ang), pressure tensor (eV/Ang^3, positive if compressed); V = q_i q_j (1-r/RC)^3"""
    n = len(pos)
    def cross(a, b):
        return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
    c = [cross(cell[1], cell[2]), cross(cell[2], cell[0]), cross(cell[0], cell[1])]
    V = abs(sum(cell[0][k] * c[0][k] for k in range(3)))
    N = []
    frac = []
    for p in pos:
        frac.append([sum(p[k] * c[j][k] for k in range(3)) / sum(cell[j][k] * c[j][k] for k in range(3)) for j in range(3)])
    spread = [max(f[j] for f in frac) - min(f[j] for f in frac) for j in range(3)]
    for j in range(3):
        h = V / math.sqrt(sum(x * x for x in c[j]))
        N.append(int(math.ceil(RC / h + spread[j])) + 1)
    E = 0.0
    F = [[0.0] * 3 for _ in pos]
    P = [[0.0] * 3 for _ in range(3)]
    for a in range(-N[0], N[0] + 1):
        for b in range(-N[1], N[1] + 1):
            for d in range(-N[2], N[2] + 1):
                T = [a * cell[0][k] + b * cell[1][k] + d * cell[2][k] for k in range(3)]
                for i in range(n):
                    for j in range(n):
                        if i == j and a == b == d == 0:
                            continue
                        v = [pos[j][k] + T[k] - pos[i][k] for k in range(3)]
                        r2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
                        if r2 >= RC * RC or r2 < 1e-20:
                            continue
                        r = math.sqrt(r2)
                        u = 1 - r / RC
                        qq = q[i] * q[j]
                        E += 0.5 * qq * u ** 3
                        dV = -3 * qq * u * u / RC          # dV/dr
                        for k in range(3):
                            F[i][k] += dV * v[k] / r
                            for l in range(3):
                                P[k][l] -= 0.5 * dV * v[k] * v[l] / r
    return E, F, [[x / V for x in row] for row in P]


def pw(fin, fout):
    txt = open(fin).read()
    rest = txt
    nl = {}
    for m in re.finditer(r'&(\w+)[ \t]*\n(.*?)\n[ \t]*/[ \t]*\n', txt, re.S):
        dct = {}
        for line in re.split(r'[,\n]', m.group(2)):
            if line.strip():
                k, v = line.split('=', 1)
                assert k.strip() not in dct
                dct[k.strip()] = v.strip()
        nl[m.group(1)] = dct
    rest = re.sub(r'&(\w+)[ \t]*\n(.*?)\n[ \t]*/[ \t]*\n', '', txt, flags=re.S)
    L = [l.strip() for l in rest.splitlines() if l.strip()]
    assert list(nl) == ['control', 'system', 'electrons'], list(nl)
    nat, ntyp = int(nl['system']['nat']), int(nl['system']['ntyp'])
    i = 0
    sp, cell, pos, sy, kp = [], [], [], [], None
    while i < len(L):
        if L[i] == 'ATOMIC_SPECIES':
            sp = [l.split() for l in L[i + 1:i + 1 + ntyp]]
            i += 1 + ntyp
        elif L[i] == 'CELL_PARAMETERS angstrom':
            cell = [[float(x) for x in l.split()] for l in L[i + 1:i + 4]]
            i += 4
        elif L[i] == 'ATOMIC_POSITIONS crystal':
            for l in L[i + 1:i + 1 + nat]:
                w = l.split()
                assert len(w) == 4
                sy.append(w[0])
                f = [float(x) for x in w[1:]]
                pos.append([sum(f[a] * cell[a][k] for a in range(3)) for k in range(3)])
            i += 1 + nat
        elif L[i] == 'K_POINTS automatic':
            kp = [int(x) for x in L[i + 1].split()][:6]      # the rest of the line is not read by pw.x
            assert len(kp) == 6
            i += 2
        else:
            raise SystemExit('unexpected line in %s: %r' % (fin, L[i]))
    assert len(sp) == ntyp and all(len(x) == 3 for x in sp) and len(cell) == 3 and len(pos) == nat and kp
    elem = {s: p.split('.')[0] for s, m, p in sp}
    q = [charge(elem[s]) for s in sy]
    E, F, P = pair(cell, pos, q)
    o = '\n     Program PWSCF     v.4.1    starts ...\n     bravais-lattice index     =            0\n     lattice parameter (alat)   =   %10.4f  a.u.\n' % 1.0
    o += '     number of atoms/cell      = %12d\n     number of atomic types    = %12d\n' % (nat, ntyp)
    o += '     crystal axes: (cart. coord. in units of alat)\n'
    for a in range(3):
        o += '               a(%d) = ( %s )  \n' % (a + 1, ' '.join('%9.6f' % (x / BOHR) for x in cell[a]))
    o += '\n     Cartesian axes\n\n     site n.     atom                  positions (alat units)\n'
    for a in range(nat):
        o += '%10d           %-2s  tau(%3d) = ( %s  )\n' % (a + 1, sy[a], a + 1, ' '.join('%11.7f' % (x / BOHR) for x in pos[a]))
    o += '\n     number of k points=%5d\n\n!    total energy              =%17.8f Ry\n\n     convergence has been achieved in   7 iterations\n' % (2, E / RY)
    o += '\n     Forces acting on atoms (Ry/au):\n\n'
    for a in range(nat):
        o += '     atom %4d type %2d   force = %s\n' % (a + 1, 1, ' '.join('%14.8f' % (x / RY * BOHR) for x in F[a]))
    o += '\n     Total force =     0.000000     Total SCF correction =     0.000018\n'
    kb = [[x * EVA3 * 10 for x in row] for row in P]
    o += '\n          total   stress  (Ry/bohr**3)                   (kbar)     P=%8.2f\n' % (sum(kb[a][a] for a in range(3)) / 3)
    for a in range(3):
        o += ' '.join('%12.8f' % (x / 147105.) for x in kb[a]) + '   ' + ' '.join('%11.2f' % x for x in kb[a]) + '\n'
    open(fout, 'w').write(o + '\n')
    log(dict(nl=nl, species=sp, kpoints=kp, symbols=sy, cwd=os.getcwd()))


def lmp():
    inp = sys.stdin.read()
    cmd = []
    for l in inp.replace('&\n', ' ').splitlines():
        l = l.split('#')[0].split()
        if l:
            cmd.append(l)
    one = {c[0]: c[1:] for c in cmd}
    assert one['units'] == ['metal'] and one['atom_style'] == ['atomic'] and one['boundary'] == ['p', 'p', 'p']
    order = [c[0] for c in cmd]
    assert order.index('read_data') < order.index('pair_style') < order.index('pair_coeff') < order.index('dump') < order.index('run')
    assert one['run'] == ['0']
    txt = open(one['read_data'][0]).read()
    L = txt.splitlines()[1:]
    box, nat, nty = {}, None, None
    atoms, mass = [], {}
    sec = None
    for l in L:
        w = l.split()
        if not w:
            continue
        if w in (['Atoms'], ['Masses']):
            sec = w[0]
        elif sec == 'Atoms':
            atoms.append((int(w[0]), int(w[1]), [float(x) for x in w[2:5]]))
        elif sec == 'Masses':
            mass[int(w[0])] = float(w[1])
        elif w[1:] == ['atoms']:
            nat = int(w[0])
        elif w[1:] == ['atom', 'types']:
            nty = int(w[0])
        elif len(w) == 4 and w[2:] in (['xlo', 'xhi'], ['ylo', 'yhi'], ['zlo', 'zhi']):
            box[w[2][0]] = float(w[1]) - float(w[0])
            assert float(w[0]) == 0
        elif w[3:] == ['xy', 'xz', 'yz']:
            box['t'] = [float(x) for x in w[:3]]
        else:
            raise SystemExit('unexpected line in the data file: %r' % l)
    assert len(atoms) == nat and len(mass) == nty
    xy, xz, yz = box['t']
    cell = [[box['x'], 0, 0], [xy, box['y'], 0], [xz, yz, box['z']]]
    elem = one['pair_coeff'][3:]
    assert len(elem) == nty and one['pair_coeff'][:2] == ['*', '*']
    atoms.sort()
    pos = [a[2] for a in atoms]
    E, F, P = pair(cell, pos, [charge(elem[a[1] - 1]) for a in atoms])
    bar = [[x * EVA3 * 1e4 for x in row] for row in P]
    assert one['thermo_style'][0] == 'custom'
    cols = one['thermo_style'][1:]
    def norm(v):
        return math.sqrt(sum(x * x for x in v))
    def ang(a, b):
        return math.degrees(math.acos(max(-1, min(1, sum(x * y for x, y in zip(a, b)) / norm(a) / norm(b)))))
    val = dict(step=0, temp=0, vol=box['x'] * box['y'] * box['z'], cella=norm(cell[0]), cellb=norm(cell[1]), cellc=norm(cell[2]),
               cellalpha=ang(cell[1], cell[2]), cellbeta=ang(cell[0], cell[2]), cellgamma=ang(cell[0], cell[1]), pe=E,
               pxx=bar[0][0], pyy=bar[1][1], pzz=bar[2][2], pxy=bar[0][1], pxz=bar[0][2], pyz=bar[1][2])
    name = dict(step='Step', temp='Temp', vol='Volume', pe='PotEng', cella='Cella', cellb='Cellb', cellc='Cellc', cellalpha='CellAlpha', cellbeta='CellBeta',
                cellgamma='CellGamma', pxx='Pxx', pyy='Pyy', pzz='Pzz', pxy='Pxy', pxz='Pxz', pyz='Pyz')
    o = 'LAMMPS (11 Nov 2013)\n' + inp + '\nSetting up run ...\nMemory usage per processor = 2.4 Mbytes\n'
    o += ' '.join(name[c] for c in cols) + ' \n' + ' '.join('%8d' % 0 if c == 'step' else '%20.12g' % val[c] for c in cols) + ' \n'
    o += 'Loop time of 0 on 1 procs for 0 steps with %d atoms\n\n' % nat
    sys.stdout.write(o)
    open('log.lammps', 'w').write(o)
    d = one['dump']
    assert d[1:4] == ['all', 'custom', '1']
    names = d[5:]
    xl = (min(0, xy, xz, xy + xz), box['x'] + max(0, xy, xz, xy + xz), xy)
    b = [xl, (min(0, yz), box['y'] + max(0, yz), xz), (0, box['z'], yz)]
    s = 'ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS xy xz yz pp pp pp\n' % nat
    s += ''.join('%.15g %.15g %.15g\n' % r for r in b) + 'ITEM: ATOMS %s \n' % ' '.join(names)
    idx = list(range(nat))
    if one.get('dump_modify', [None] * 3)[1:] != ['sort', 'id']:
        idx = idx[::-1]
    for i in idx:
        v = dict(id=i + 1, type=atoms[i][1], xu=pos[i][0], yu=pos[i][1], zu=pos[i][2], fx=F[i][0], fy=F[i][1], fz=F[i][2])
        s += ' '.join('%.12g' % v[c] for c in names) + ' \n'
    open(d[4], 'w').write(s)
    log(dict(cmd=cmd, mass=mass, types=[a[1] for a in atoms], cwd=os.getcwd()))


def log(d):
    with open('calls.jsonl', 'a') as f:
        f.write(json.dumps(d) + '\n')


if __name__ == '__main__':
    pw(*sys.argv[2:]) if sys.argv[1] == 'pw' else lmp()
