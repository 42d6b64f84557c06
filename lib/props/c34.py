from mdgen import *
from pwtools import io, parse

RULE = ('CPMD runs (single point; BO/CP MD with 6, 8 or 9 energy columns, TRAJECTORY and/or FTRAJECTORY with restart marks, CELL with 3 or 6 columns, STRESS complete or not, extra lines in GEOMETRY; 1-12 atoms, 1-8 steps) '
        'generated from random physical data; parser attributes must be the printed numbers, containers the numbers in eV/Angstrom/GPa/fs by CODATA constants; non-trivial if there are several atoms or steps')
ASSUMPTIONS = 'unit constants agree with CODATA 2018 to 3e-6; output layouts are those of CPMD 3.15 as in test/files'


@sub(D(seed=seeds, nat=sizes(1, 12, 30, 110), kind=cellkinds_rh), quick=80, thorough=1200, budget=(30, 300))
def scf_output(case, t):
    r = rng(case)
    t.nontrivial(case['nat'] > 1)
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        R = gen_cpmd_scf(r, case['nat'], case['kind'])
        s = check_run(t, R, d, r)
        t.close(s.coords, R.cont['coords_frac'] @ R.cont['cell'], 'coords', **UT)
        t.close(s.volume, abs(np.linalg.det(R.cont['cell'])), 'volume', rtol=1e-6)
        t.eq(s.natoms, case['nat'], 'natoms')


@sub(D(seed=seeds, nat=sizes(1, 9, 30, 110), nstep=sizes(1, 8, 40, 110), kind=cellkinds_rh), quick=120, thorough=2000, budget=(50, 400))
def md_output(case, t):
    r = rng(case)
    t.nontrivial(case['nat'] > 1 or case['nstep'] > 1)
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        R = gen_cpmd_md(r, case['nat'], case['nstep'], case['kind'])
        s = check_run(t, R, d, r)
        t.eq(s.nstep, R.nstep, 'nstep')
        t.close(np.einsum('tij,tjk->tik', s.coords_frac, s.cell), R.cont['coords'], 'coords_frac . cell', rtol=1e-6, atol=1e-6)
        i = int(r.integers(R.nstep))
        for k in ('etot', 'forces', 'coords', 'cell'):
            if R.cont.get(k) is not None:
                t.close(getattr(s[i], k), R.cont[k][i], 'one step: ' + k, **UT)


@sub(D(seed=seeds, nat=ints(1, 3), nstep=ints(900, 2600), kind=cellkinds_rh), quick=4, thorough=60, budget=(20, 200))
def long_runs(case, t):
    SUBS['md_output'].func(case, t)


@sub(D(seed=seeds, md=bools, what=pick(['nstep', 'cols'])), quick=12, thorough=60)
def rejected(case, t):
    """an incomplete trajectory or an unknown kind of ENERGIES must not be read as something else"""
    r = rng(case)
    t.nontrivial()
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        R = gen_cpmd_md(r, 3, 4)
        if case['what'] == 'nstep':
            k = 'FTRAJECTORY' if 'FTRAJECTORY' in R.files else 'TRAJECTORY'
            if k not in R.files:
                t.skip('no trajectory')
            R.files[k] = ''.join(x for x in R.files[k].splitlines(True)[:-1])
        else:
            R.files['ENERGIES'] = '1 2 3 4 5 6 7\n2 2 3 4 5 6 7\n'
        fn = R.write(d)
        with t.raises(Exception, msg='incomplete or unknown file'):
            R.cls(fn).parse()
