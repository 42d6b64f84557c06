from mdgen import *
from pwtools import io, parse

RULE = ('CP2K runs (energy_force, MD with text or DCD coordinates, cell_opt/geo_opt; 1-12 atoms, 1-8 steps, every optional file left out at random, forces in a file or in the output) generated from random physical data; '
        'parser attributes must be the printed numbers, containers the numbers in eV/Angstrom/GPa/fs by CODATA constants; non-trivial if at least one quantity is in the files')
ASSUMPTIONS = 'unit constants agree with CODATA 2018 to 3e-6; output layouts are those of CP2K 2.4 as in test/files; DCD coordinates are single precision'


@sub(D(seed=seeds, nat=sizes(1, 12, 30, 110)), quick=80, thorough=1200, budget=(25, 300))
def scf_output(case, t):
    r = rng(case)
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        R = gen_cp2k_scf(r, case['nat'])
        t.nontrivial(any(R.exp[k] is not None for k in ('etot', 'forces', 'stress')))
        check_run(t, R, d, r)


def md(case, t, dcd):
    r = rng(case)
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        R = gen_cp2k_md(r, case['nat'], case['nstep'], dcd, case['kind'])
        t.nontrivial(R.anything)
        if not R.anything:
            t.skip('no data at all')
        s = check_run(t, R, d, r)
        if R.exp['coords'] is not None:
            t.eq(s.nstep, R.nstep, 'nstep')
        if R.volume is not None:
            p = R.cls(os.path.join(d, R.main))
            t.close(p.get_volume(), R.volume, 'get_volume()', rtol=1e-9, atol=1e-9)
            t.close(s.volume, R.volume, 'volume', rtol=1e-7)
        if dcd:
            t.close(cc_of_cells(s.cell), R.exp['cryst_const'], 'cell has the cell constants of the dcd file', rtol=1e-7)
        elif R.cont.get('coords') is not None and R.cont.get('cell') is not None:
            t.close(np.einsum('tij,tjk->tik', s.coords_frac, s.cell), R.cont['coords'], 'coords_frac . cell', rtol=1e-7, atol=1e-7)
        if R.exp['coords'] is None:
            return
        i = int(r.integers(R.nstep))
        for k in ('etot', 'forces', 'coords', 'stress'):
            if R.cont.get(k) is not None:
                t.close(getattr(s[i], k), R.cont[k][i], 'one step: ' + k, **UT)


MDC = D(seed=seeds, nat=sizes(1, 10, 30, 110), nstep=sizes(1, 8, 40, 110), kind=cellkinds_rh)


@sub(MDC, quick=80, thorough=1200, budget=(35, 300))
def md_text(case, t):
    md(case, t, False)


@sub(MDC, quick=60, thorough=1000, budget=(30, 300))
def md_dcd(case, t):
    md(case, t, True)


@sub(D(seed=seeds, nat=ints(1, 3), nstep=ints(900, 2600), kind=cellkinds_rh, dcd=bools), quick=4, thorough=60, budget=(20, 200))
def long_runs(case, t):
    md(case, t, case['dcd'])


@sub(D(seed=seeds, nat=sizes(1, 10, 30, 110), nstep=sizes(2, 8, 40, 110), kind=cellkinds_rh, geo=bools), quick=60, thorough=800, budget=(25, 240))
def relax(case, t):
    r = rng(case)
    t.nontrivial()
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        R = gen_cp2k_relax(r, case['nat'], case['nstep'], case['kind'], case['geo'])
        s = check_run(t, R, d, r)
        t.eq(s.nstep, R.nstep, 'nstep')
        if not case['geo']:
            # coordinates and cells which do not belong together must not be combined silently
            R.files['PROJECT-1.cell'] = R.files['PROJECT-1.cell'] + R.files['PROJECT-1.cell'].splitlines()[-1] + '\n'
            fn = R.write(d)
            with t.raises(Exception, msg='cell and coords of different length'):
                parse.Cp2kRelaxOutputFile(fn).parse()
            if case['nstep'] > 2:                      # two cells less than coords
                R.files['PROJECT-1.cell'] = ''.join(x + '\n' for x in R.files['PROJECT-1.cell'].splitlines()[:-2])
                fn = R.write(d)
                with t.raises(Exception, msg='cell and coords of different length'):
                    parse.Cp2kRelaxOutputFile(fn).parse()


@sub(D(seed=seeds, what=pick(['scf', 'md', 'dcd', 'relax']), out=bools), quick=16, thorough=60)
def nothing_there(case, t):
    t.nontrivial()
    r = rng(case)
    cls = dict(scf=parse.Cp2kSCFOutputFile, md=parse.Cp2kMDOutputFile, dcd=parse.Cp2kDcdMDOutputFile, relax=parse.Cp2kRelaxOutputFile)[case['what']]
    with tmpdir() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = os.path.join(d, 'cp2k.out')
        open(fn, 'w').write(cnoise(r, CP2K_NOISE, 6) if case['out'] else '')
        p = cls(fn)
        p.parse()
        for k in p.attr_lst:
            t.ok(getattr(p, k) is None, 'attribute %s is %s although it is not in the files' % (k, short(getattr(p, k))))
