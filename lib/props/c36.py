from mdgen import *
from pwtools import pwscf, parse, crys

RULE = ('random atoms/species/k-points turned into pw.x input text, which is read by an own parser and by the parsers of the package; Bravais cells against a table of conventional vectors; phonon files (matdyn modes, matdyn '
        'frequencies, dyn, dynmat) written from random numbers in the layout of QE and read back exactly; non-trivial if more than one atom, k-point, mode or q-point')
ASSUMPTIONS = 'layout of QE 4/5 output files as in test/files'


@sub(D(seed=seeds, nat=sizes(1, 12, 60, 130), ncol=pick([3, 3, 3, 6]), fmt=pick(['%.16e', '%.16e', '%.8f', '%g', '%15.10f']), eps=pick(['default', 1e-3, 0.0, -1.0]), arr=bools, delim=pick([4 * ' ', ' ', '\t'])), quick=150, thorough=3000)
def atpos(case, t):
    r = rng(case)
    nat = case['nat']
    t.nontrivial(nat > 1)
    sy = [str(x) for x in r.choice(SY, nat)]
    co = r.normal(size=(nat, 3)) * 10.0**r.integers(-5, 4, (nat, 3))
    co[r.random((nat, 3)) < .2] = 0.0
    if case['ncol'] == 6:
        co = np.concatenate([co, r.integers(0, 2, (nat, 3))], axis=1)
    kw = dict(fmt=case['fmt'], delim=case['delim'])
    if case['eps'] != 'default':
        kw['eps'] = case['eps']
    arg = co if case['arr'] else co.tolist()
    with t.unchanged(co=co, sy=sy):
        txt = pwscf.atpos_str(sy, arg, **kw)
    eps = 2.2e-15 if case['eps'] == 'default' else case['eps']
    ref = np.where(np.abs(co) < eps, 0.0, co)
    near = np.abs(np.abs(co) - eps) < 1e-14
    lines = txt.split('\n')
    t.eq(len(lines), nat, 'number of lines')
    t.eq([l.split()[0] for l in lines], sy, 'symbols')
    got = np.array([[float(x) for x in l.split()[1:]] for l in lines])
    exp = np.array([[float(case['fmt'] % x) for x in row] for row in ref])
    t.close(np.where(near, 0, got), np.where(near, 0, exp), 'coordinates in print', rtol=0, atol=0)
    t.eq([len(l.split(case['delim'] if case['fmt'] != '%15.10f' else None)) for l in lines], [1 + case['ncol']] * nat, 'columns')
    with t.unchanged(co=co, sy=sy):
        fast = pwscf.atpos_str_fast(sy, co)
    fl_ = [l for l in fast.split('\n') if l.strip()]
    t.eq([l.split()[0] for l in fl_], sy, 'atpos_str_fast: symbols')
    t.close(np.array([[float(x) for x in l.split()[1:]] for l in fl_]), co, 'atpos_str_fast: coordinates', rtol=0, atol=0)
    with t.raises(AssertionError, msg='wrong number of symbols'):
        pwscf.atpos_str(sy + ['H'], arg)
    # the parser of the package
    with tmpdir() as d:
        fn = os.path.join(d, 'pw.out')
        for which, tx, e in (('atpos_str', txt, exp), ('atpos_str_fast', fast, co)):
            if case['fmt'] == '%g' and which == 'atpos_str' and False:
                continue
            open(fn, 'w').write('     number of atoms/cell      = %12d\n\nATOMIC_POSITIONS (crystal)\n%s\n\n' % (nat, tx))
            p = parse.PwMDOutputFile(fn)
            p.try_set_attr('coords_frac')
            g = p.coords_frac
            t.ok(g is not None, 'coords not found by PwMDOutputFile in the text of ' + which)
            t.close(np.where(near[:, :3], 0, g[0]), np.where(near[:, :3], 0, e[:, :3]), 'read by PwMDOutputFile: ' + which, rtol=1e-15, atol=0)


@sub(D(seed=seeds, n=ints(0, 8), strings=bools), quick=60, thorough=600)
def species(case, t):
    r = rng(case)
    n = case['n']
    t.nontrivial(n > 1)
    sy = [str(x) for x in r.choice(SY, n)]
    m = [float('%.4f' % x) for x in r.uniform(1, 250, n)]
    mm = [str(x) for x in m] if case['strings'] else (np.array(m) if r.random() < .5 else m)
    pp = ['%s.pbe-%d.UPF' % (s, i) for i, s in enumerate(sy)]
    txt = pwscf.atspec_str(sy, mm, pp)
    rows = [l.split() for l in txt.split('\n')] if n else []
    t.eq([x[0] for x in rows], sy, 'symbols')
    t.eq([float(x[1]) for x in rows], m, 'masses')
    t.eq([x[2] for x in rows], pp, 'pseudopotentials')
    with t.raises(AssertionError, msg='lists of different length'):
        pwscf.atspec_str(sy, list(mm) + [1.0], pp)
    with t.raises(AssertionError, msg='lists of different length'):
        pwscf.atspec_str(sy, mm, pp + ['x'])


@sub(D(seed=seeds, k=st.lists(ints(1, 30), min_size=3, max_size=3), s=st.lists(ints(0, 1), min_size=3, max_size=3), ty=pick(['list', 'tuple', 'array']), ts=pick(['list', 'tuple', 'array', 'no']), gamma=bools), quick=120, thorough=1500)
def kpoints(case, t):
    mk = dict(list=list, tuple=tuple, array=np.array)
    k, s = case['k'], case['s']
    t.nontrivial(len(set(k)) > 1)
    lst = mk[case['ty']](k)
    kw = {} if case['ts'] == 'no' else dict(shift=mk[case['ts']](s))
    if case['ts'] == 'no':
        s = [0, 0, 0]
    a = pwscf.kpoints_str_pwin(lst, **kw)
    t.eq([int(x) for x in a.split()], k + s, 'kpoints_str_pwin')
    t.eq(list(lst), k, 'input unchanged')
    if kw:
        t.eq(list(kw['shift']), s, 'shift unchanged')
    f = pwscf.kpoints_str_pwin_full(lst, gamma=case['gamma'], **kw).split('\n')
    if k == [1, 1, 1] and case['gamma']:
        t.eq(f, ['K_POINTS gamma'], 'gamma')
    else:
        t.eq([f[0], [int(x) for x in f[1].split()], len(f)], ['K_POINTS automatic', k + s, 2], 'kpoints_str_pwin_full')
    t.eq(pwscf.kpoints_str_pwin_full('gamma', gamma=case['gamma']), 'K_POINTS gamma', 'gamma as string')
    one = mk[case['ty']]([1, 1, 1])
    t.eq(pwscf.kpoints_str_pwin_full(one, gamma=True), 'K_POINTS gamma', '1 1 1')
    t.eq(pwscf.kpoints_str_pwin_full(one, gamma=False).split(), ['K_POINTS', 'automatic'] + ['1'] * 3 + ['0'] * 3, '1 1 1, gamma=False')
    b = case['ty'] + 'q'
    t.eq(pwscf.kpoints_str(lst, base=b), ','.join('%s%d=%d' % (b, i + 1, k[i]) for i in range(3)), 'kpoints_str')
    t.eq(pwscf.kpoints_str(lst), ','.join('nk%d=%d' % (i + 1, k[i]) for i in range(3)), 'kpoints_str')
    t.eq(pwscf.kpoints_str_pwin(k), ' '.join(str(x) for x in k + [0] * 3), 'default shift after use')
    t.eq([pwscf.bool2str(True), pwscf.bool2str(False)], ['.true.', '.false.'], 'bool2str')


@sub(D(seed=seeds, ibrav=ints(1, 14), sparse=bools), quick=200, thorough=3000)
def bravais(case, t):
    r = rng(case)
    t.nontrivial()
    ib = case['ibrav']
    a, b, c = r.uniform(1, 20, 3)
    al, be, ga = np.radians(r.uniform(50, 115, 3) if ib == 5 else r.uniform(65, 115, 3))
    x = np.array([1., 0, 0]), np.array([0, 1., 0]), np.array([0, 0, 1.])
    X, Y, Z = x
    need = {1: '', 2: '', 3: '', 4: 'c', 5: 'A', 6: 'c', 7: 'c', 8: 'bc', 9: 'bc', 10: 'bc', 11: 'bc', 12: 'bcG', 13: 'bcG', 14: 'bcABG'}[ib]
    cd = [a] + [v if k in need else (None if case['sparse'] else float(r.uniform(.1, .9)))
                for k, v in zip('bcABG', [b / a, c / a, np.cos(al), np.cos(be), np.cos(ga)])]
    if ib in (1, 2, 3):
        b = c = a
    if ib in (4, 6, 7):
        b = a
    bg = b * (np.cos(ga) * X + np.sin(ga) * Y)
    if ib == 1:
        E = [a * X, a * Y, a * Z]
    elif ib == 2:
        E = [a / 2 * (-X + Z), a / 2 * (Y + Z), a / 2 * (-X + Y)]
    elif ib == 3:
        E = [a / 2 * (X + Y + Z), a / 2 * (-X + Y + Z), a / 2 * (-X - Y + Z)]
    elif ib == 4:
        E = [a * X, a * (-X / 2 + math.sqrt(3) / 2 * Y), c * Z]
    elif ib == 5:
        E = None
    elif ib == 6:
        E = [a * X, a * Y, c * Z]
    elif ib == 7:
        E = [a / 2 * (X - Y) + c / 2 * Z, a / 2 * (X + Y) + c / 2 * Z, a / 2 * (-X - Y) + c / 2 * Z]
    elif ib == 8:
        E = [a * X, b * Y, c * Z]
    elif ib == 9:
        E = [(a * X + b * Y) / 2, (-a * X + b * Y) / 2, c * Z]
    elif ib == 10:
        E = [(a * X + c * Z) / 2, (a * X + b * Y) / 2, (b * Y + c * Z) / 2]
    elif ib == 11:
        E = [(a * X + b * Y + c * Z) / 2, (-a * X + b * Y + c * Z) / 2, (-a * X - b * Y + c * Z) / 2]
    elif ib == 12:
        E = [a * X, bg, c * Z]
    elif ib == 13:
        E = [(a * X - c * Z) / 2, bg, (a * X + c * Z) / 2]
    else:
        q = 1 + 2 * np.cos(al) * np.cos(be) * np.cos(ga) - np.cos(al)**2 - np.cos(be)**2 - np.cos(ga)**2
        if q < 1e-3:
            t.skip()
        E = None
    arg = tuple(cd) if r.random() < .5 else list(cd)
    with t.unchanged(cd=arg):
        cell = pwscf.ibrav2cell(ib, arg)
    t.shape(cell, (3, 3), 'cell')
    if E is not None:
        t.close(cell, np.array(E), 'vectors of ibrav %d' % ib, rtol=1e-12, atol=1e-12 * (a + b + c))
    if ib == 5:
        t.close(np.linalg.norm(cell, axis=1), [a] * 3, 'lengths', rtol=1e-10)
        g = cell @ cell.T / a**2
        t.close([g[0, 1], g[0, 2], g[1, 2]], [np.cos(al)] * 3, 'cosines', rtol=1e-9, atol=1e-10)
        t.close([cell[1, 0], cell[0, 1]], [0, cell[2, 1]], 'orientation', atol=1e-12)
        t.close(np.sum(cell[:, :2], axis=0), [0, 0], 'threefold axis is z', atol=1e-10 * a)
        t.ok(cell[0, 0] > 0 and cell[0, 2] > 0 and cell[1, 1] > 0, 'tx, ty, tz > 0')
    if ib == 14:
        t.close(cc_of_cells(cell[None])[0], [a, b, c] + list(np.degrees([al, be, ga])), 'cell constants', rtol=1e-8)
        t.close([cell[0, 1], cell[0, 2], cell[1, 2]], [0, 0, 0], 'a along x, b in the xy plane', atol=1e-12)
        t.close(cell, crys.cc2cell(np.array([a, b, c] + list(np.degrees([al, be, ga])))), 'as cc2cell', rtol=1e-7, atol=1e-8)
    vol = {1: a**3, 2: a**3 / 4, 3: a**3 / 2, 4: a * a * c * math.sqrt(3) / 2, 6: a * a * c, 7: a * a * c / 2, 8: a * b * c, 9: a * b * c / 2, 10: a * b * c / 4, 11: a * b * c / 2, 12: a * b * c * np.sin(ga), 13: a * b * c * np.sin(ga) / 2}
    if ib in vol:
        t.close(abs(np.linalg.det(cell)), vol[ib], 'volume of ibrav %d' % ib, rtol=1e-9)
    k = float(r.uniform(.1, 5))
    t.close(pwscf.ibrav2cell(ib, [k * a] + list(cd[1:])), k * cell, 'scales with celldm[0]', rtol=1e-10, atol=1e-12)
    with t.raises(Exception, msg='illegal ibrav'):
        pwscf.ibrav2cell(int(r.choice([0, 15, 20, -1])), cd)


# ---- phonons -----------------------------------------------------------------------------------
def modes_block(fr, ev, wide):
    o = ''
    for m, f in enumerate(fr):
        o += ('     omega(%2d) = %14.6f [THz] = %14.6f [cm-1]\n' if wide else '    omega(%d) = %f [THz] = %f [cm-1]\n') % (m + 1, f / 33.35640951981521, f)
        for v in ev[m]:
            o += ' (' + ''.join(' %9.6f %9.6f   ' % (z.real, z.imag) if wide else '  %f  %f  ' % (z.real, z.imag) for z in v) + ')\n'
    return o


def rnd_modes(r, nat, nq):
    q = fl(r.uniform(-1, 1, (nq, 3)) * (r.random((nq, 3)) < .8), 4)
    f = fl(np.sort(r.normal(size=(nq, 3 * nat)) * 10.0**r.integers(0, 4)), 6)
    e = fl(r.uniform(-1, 1, (nq, 3 * nat, nat, 3)) * .99, 6) + 1j * fl(r.uniform(-1, 1, (nq, 3 * nat, nat, 3)) * (r.random() < .7), 6)
    return q, f, e


def cm(t, a, b, msg):
    t.shape(a, b.shape, msg)
    t.close(a, b, msg, rtol=0, atol=0)


@sub(D(seed=seeds, nat=ints(1, 6), nq=sizes(1, 5, 30, 60), wide=bools), quick=60, thorough=800, budget=(30, 240))
def modes(case, t):
    r = rng(case)
    nat, nq = case['nat'], case['nq']
    t.nontrivial(nat > 1 or nq > 1)
    q, f, e = rnd_modes(r, nat, nq)
    star = ' ' + '*' * 74 + '\n'
    with tmpdir() as d:
        fn = os.path.join(d, 'matdyn.modes')
        o = ''
        for i in range(nq):
            o += '     diagonalizing the dynamical matrix ...\n\n q = %s\n' % ''.join('%12.4f' % x for x in q[i]) + star + modes_block(f[i], e[i], case['wide']) + star
        open(fn, 'w').write(o)
        Q, F, E = pwscf.read_matdyn_modes(fn, natoms=nat)
        cm(t, Q, q, 'read_matdyn_modes: qpoints')
        cm(t, F, f, 'read_matdyn_modes: freqs')
        cm(t, E, e, 'read_matdyn_modes: vecs')
        with t.raises(AssertionError, msg='natoms missing'):
            pwscf.read_matdyn_modes(fn)
        base = str(r.choice(['ph.dyn', 'al.dyn', 'dynq']))
        for i in range(nq):
            nstar = int(r.integers(1, 4))
            first = int(r.integers(nstar))
            o = 'Dynamical Matrix file\n                                                                           \n  1    %d  2  10.2610000   0.0000000   0.0000000   0.0000000   0.0000000   0.0000000\n' % nat
            o += "           1  'Si     '    25598.3673093\n" + ''.join('%5d%5d%18.10f%18.10f%18.10f\n' % (k + 1, 1, *r.uniform(size=3)) for k in range(nat))
            for s in range(nstar):
                qq = q[i] if s == first else fl(r.uniform(-1, 1, 3), 4)
                o += '\n     Dynamical  Matrix in cartesian axes\n\n     q = ( %s ) \n\n' % ''.join('%14.9f' % x for x in qq)
                for k in range(nat):
                    for l in range(nat):
                        o += '%5d%5d\n' % (k + 1, l + 1) + ''.join('  '.join('%12.8f%12.8f' % tuple(r.normal(size=2)) for _ in range(3)) + '\n' for _ in range(3))
            o += '\n     Diagonalizing the dynamical matrix\n\n     q = ( %s ) \n\n' % ''.join('%14.9f' % x for x in q[i]) + star + modes_block(f[i], e[i], case['wide']) + star
            open(os.path.join(d, base + str(i + 1)), 'w').write(o)
        i = int(r.integers(nq))
        Q, F, E = pwscf.read_dyn(os.path.join(d, base + str(i + 1)), natoms=nat)
        cm(t, Q, q[i], 'read_dyn: qpoint')
        cm(t, F, f[i], 'read_dyn: freqs')
        cm(t, E, e[i], 'read_dyn: vecs')
        kw = {} if base == 'ph.dyn' else dict(base=base)
        Q, F, E = pwscf.read_all_dyn(d, nqpoints=nq, natoms=nat, **kw)
        cm(t, Q, q, 'read_all_dyn: qpoints')
        cm(t, F, f, 'read_all_dyn: freqs')
        cm(t, E, e, 'read_all_dyn: vecs')


@sub(D(seed=seeds, nks=sizes(1, 30, 130, 300), nat=ints(1, 9)), quick=80, thorough=1200)
def freq(case, t):
    r = rng(case)
    nks, nb = case['nks'], 3 * case['nat']
    t.nontrivial(nks > 1)
    k = fl(r.uniform(-2, 2, (nks, 3)), 6)
    f = fl(r.normal(size=(nks, nb)) * 10.0**r.integers(-1, 4), 4)
    f[np.abs(f) > 9999] = 1.0
    o = ' &plot nbnd=%4d, nks=%4d /\n' % (nb, nks)
    for i in range(nks):
        o += '          ' + ''.join('%10.6f' % x for x in k[i]) + '\n'
        for j in range(0, nb, 6):
            o += ''.join(' %9.4f' % x for x in f[i, j:j + 6]) + '\n'
    with tmpdir() as d:
        fn = os.path.join(d, 'matdyn.freq')
        open(fn, 'w').write(o)
        K, F = pwscf.read_matdyn_freq(fn)
        cm(t, K, k, 'k-points')
        cm(t, F, f, 'frequencies')


@sub(D(seed=seeds, nat=ints(1, 8), ncol=pick([3, 4, 6])), quick=60, thorough=800)
def dynmat(case, t):
    r = rng(case)
    nat, nc = case['nat'], case['ncol']
    t.nontrivial(nat > 1)
    nm = 3 * nat
    v = fl(r.uniform(-1, 1, (nm, nat, 3)), 5)
    sy = [str(x) for x in r.choice(SY, nat)]
    x = r.uniform(-9, 9, (nat, 3))
    o = ' ANIMSTEPS %4d\n CRYSTAL\n PRIMVEC\n' % nm + ''.join(''.join('%15.9f' % y for y in row) + '\n' for row in make_cell('triclinic', 3))
    for m in range(nm):
        o += ' PRIMCOORD%3d\n%7d   1\n' % (m + 1, nat) + ''.join('   %-2s%s\n' % (sy[i], ''.join('%10.5f' % y for y in list(x[i]) + list(v[m, i]))) for i in range(nat))
    f = fl(np.sort(r.normal(size=nm) * 10.0**r.integers(0, 4)), 2)
    tab = np.column_stack([np.arange(1, nm + 1), f, fl(f / 33.35641, 4), fl(r.uniform(0, 99, nm), 4), fl(r.uniform(0, 99, nm), 4), fl(r.uniform(0, .75, nm), 4)])[:, :nc]
    out = '\n     Program DYNMAT v.5.0.2 (svn rev. 9656) starts on 29Oct2013 at 17:49:37\n     Reading Dynamical Matrix from file ph.dyn\n     IR activities are in (D/A)^2/amu units\n\n'
    out += '# mode   [cm-1]    [THz]      IR          Raman   depol.fact\n' if nc == 6 else '# mode   [cm-1]    [THz]      IR\n' if nc == 4 else '# mode   [cm-1]    [THz]\n'
    out += ''.join('%5d%10.2f%10.4f' % tuple(row[:3]) + ''.join('%10.4f' % y for y in row[3:]) + '\n' for row in tab) + '\n     DYNMAT       :     0.00s CPU         0.01s WALL\n\n'
    with tmpdir() as d:
        a, b = [('dynmat.out', 'dynmat.axsf'), ('o.txt', 'vib.axsf')][int(r.integers(2))]
        open(os.path.join(d, a), 'w').write(out)
        open(os.path.join(d, b), 'w').write(o)
        kw = {} if a == 'dynmat.out' else dict(filename=a, axsf=b)
        Q, F, V = pwscf.read_dynmat(path=d, natoms=nat, **kw)
        cm(t, Q, np.zeros(3), 'read_dynmat: Gamma')
        cm(t, F, f, 'read_dynmat: freqs')
        cm(t, V, v, 'read_dynmat: vecs')
        fn = os.path.join(d, a)
        cm(t, pwscf.read_dynmat_ir_raman(fn, natoms=nat, cols=None), tab, 'table')
        dct = pwscf.read_dynmat_ir_raman(fn, natoms=nat)
        t.eq(sorted(dct), ['depol', 'freqs', 'ir', 'raman'], 'keys')
        for k, i in (('freqs', 1), ('ir', 3), ('raman', 4), ('depol', 5)):
            if i < nc:
                cm(t, dct[k], tab[:, i], 'read_dynmat_ir_raman: ' + k)
            else:
                t.ok(dct[k] is None, 'column %s is not in the file' % k)
        dct = pwscf.read_dynmat_ir_raman(fn, natoms=nat, cols={2: 'thz', 0: 'n'})
        t.eq(sorted(dct), ['n', 'thz'], 'own columns')
        cm(t, dct['thz'], tab[:, 2], 'own column')


@sub(D(seed=seeds, nat=ints(1, 4)), quick=30, thorough=300)
def documented_defaults(case, t):
    r = rng(case, 9)
    nat = case['nat']
    t.nontrivial(nat > 1)
    k = [[1, 1, 1], [2, 3, 4], 'gamma'][int(r.integers(3))]
    t.defaults(pwscf.kpoints_str_pwin_full, (k,), shift=[0, 0, 0], gamma=True)
    t.defaults(pwscf.kpoints_str_pwin_full, ([1, 1, 1],), gamma=True, shift=[0, 0, 0])
    if k != 'gamma':
        t.defaults(pwscf.kpoints_str_pwin, (k,), shift=[0, 0, 0])
        t.defaults(pwscf.kpoints_str, (k,), base='nk')
    x = r.normal(size=(nat, 3)) * 10.0**r.integers(-20, 1, (nat, 3))
    t.defaults(pwscf.atpos_str, ([str(s) for s in r.choice(SY, nat)], x), fmt='%.16e', zero_eps=None, delim=4 * ' ')
    # files in the current directory
    nm = 3 * nat
    v = fl(r.uniform(-1, 1, (nm, nat, 3)), 5)
    f = fl(np.sort(r.normal(size=nm) * 100), 2)
    tab = np.column_stack([np.arange(1, nm + 1), f, fl(f / 33.35641, 4), fl(r.uniform(0, 99, nm), 4), fl(r.uniform(0, 99, nm), 4), fl(r.uniform(0, .75, nm), 4)])
    out = '\n     Program DYNMAT v.5.0.2\n\n# mode   [cm-1]    [THz]      IR          Raman   depol.fact\n'
    out += ''.join('%5d%10.2f%10.4f' % tuple(row[:3]) + ''.join('%10.4f' % y for y in row[3:]) + '\n' for row in tab) + '\n     DYNMAT       :     0.00s CPU\n\n'
    o = ' ANIMSTEPS %4d\n CRYSTAL\n PRIMVEC\n' % nm + ''.join(''.join('%15.9f' % y for y in row) + '\n' for row in make_cell('tric', 3))
    for m in range(nm):
        o += ' PRIMCOORD%3d\n%7d   1\n' % (m + 1, nat) + ''.join('   H %s\n' % ''.join('%10.5f' % y for y in [0, 0, 0] + list(v[m, i])) for i in range(nat))
    cwd = os.getcwd()
    with tmpdir() as d:
        try:
            os.chdir(d)
            open('dynmat.out', 'w').write(out)
            open('dynmat.axsf', 'w').write(o)
            t.defaults(pwscf.read_dynmat, (), dict(natoms=nat), path='.', filename='dynmat.out', axsf='dynmat.axsf')
            t.defaults(pwscf.read_dynmat_ir_raman, (), dict(natoms=nat), filename='dynmat.out', cols={1: 'freqs', 3: 'ir', 4: 'raman', 5: 'depol'})
            cm(t, pwscf.read_dynmat(natoms=nat)[2], v, 'vecs')
            for fu in (pwscf.read_dynmat, pwscf.read_dynmat_ir_raman):
                with t.raises(AssertionError, msg='natoms missing'):
                    fu()
        finally:
            os.chdir(cwd)
