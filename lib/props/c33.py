from mdgen import *
from pwtools import io, parse

RULE = ('LAMMPS runs (log.lammps with one or several run blocks, permuted and missing thermo columns; custom dump with permuted and missing columns, triclinic and orthogonal boxes; or a DCD file; symbols from file, '
        'order or dump_modify) generated from random physical data; parser attributes must be the printed numbers, containers the numbers in eV/Angstrom/GPa/fs; non-trivial if there are several atoms or steps')
ASSUMPTIONS = 'output layout of LAMMPS 2013 (metal units) as in test/files; the number of thermo lines equals the number of dumped steps'


LC = D(seed=seeds, nat=sizes(1, 10, 30, 110), nstep=sizes(1, 8, 40, 110), ortho=bools)


@sub(LC, quick=120, thorough=2000, budget=(40, 400))
def text(case, t):
    r = rng(case)
    t.nontrivial(case['nat'] > 1 or case['nstep'] > 1)
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        R = gen_lammps(r, case['nat'], case['nstep'], False, case['ortho'])
        s = check_run(t, R, d, r)
        if R.exp['coords'] is not None or R.exp['coords_frac'] is not None:
            t.eq(s.nstep, R.nstep, 'nstep')
            i = int(r.integers(R.nstep))
            for k in ('etot', 'forces', 'cell', 'stress'):
                if R.cont.get(k) is not None:
                    t.close(getattr(s[i], k), R.cont[k][i], 'one step: ' + k, **UT)
        if R.exp['coords'] is not None and R.exp['coords_frac'] is not None:
            t.close(np.einsum('tij,tjk->tik', s.coords_frac, s.cell), s.coords, 'coords_frac . cell = coords', rtol=1e-4, atol=1e-4)
        t.close(s.cryst_const, R.exp['cryst_const'] if R.exp['cryst_const'] is not None else cc_of_cells(R.exp['cell']), 'cryst_const', rtol=1e-6)
        t.close(s.volume, np.abs(np.linalg.det(R.exp['cell'])), 'volume', rtol=1e-6)


@sub(D(seed=seeds, nat=sizes(1, 10, 30, 110), nstep=sizes(1, 8, 40, 110)), quick=80, thorough=1200, budget=(30, 300))
def dcd_output(case, t):
    r = rng(case)
    t.nontrivial(case['nat'] > 1 or case['nstep'] > 1)
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        R = gen_lammps(r, case['nat'], case['nstep'], True)
        s = check_run(t, R, d, r)
        t.eq(s.nstep, R.nstep, 'nstep')
        c = s.cell
        t.close(c[:, [0, 0, 1], [1, 2, 2]], np.zeros((R.nstep, 3)), 'cell is aligned: lower triangle', rtol=0, atol=1e-9)
        t.close(cc_of_cells(c), R.cc, 'cell has the cell constants of the file', rtol=1e-6)
        t.ok((np.diagonal(c, axis1=1, axis2=2) > 0).all(), 'cell is aligned: positive diagonal')


@sub(D(seed=seeds, nat=ints(1, 3), nstep=ints(900, 2600), ortho=bools, dcd=bools), quick=4, thorough=60, budget=(20, 200))
def long_runs(case, t):
    SUBS['dcd_output' if case['dcd'] else 'text'].func(case, t)


@sub(D(seed=seeds, dcd=bools, out=pick(['missing', 'empty', 'noise'])), quick=12, thorough=60)
def nothing_there(case, t):
    t.nontrivial()
    r = rng(case)
    cls = parse.LammpsDcdMDOutputFile if case['dcd'] else parse.LammpsTextMDOutputFile
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = os.path.join(d, 'log.lammps')
        if case['out'] != 'missing':
            open(fn, 'w').write(cnoise(r, LMP_NOISE, 6) if case['out'] == 'noise' else '')
        p = cls(fn)
        p.parse()
        for k in p.attr_lst:
            t.ok(getattr(p, k) is None, 'attribute %s is %s although it is not in the files' % (k, short(getattr(p, k))))
