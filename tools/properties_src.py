"""Source of /verif/properties.jsonl (run: python3 tools/properties_src.py)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=('inputs',), state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=['src/pwtools/'+f if not f.startswith(('bin/', 'src/')) else f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append(d)

p('C01', 'Cell, lattice-constant, celldm, volume and reciprocal views agree',
  'For every valid unit cell the 3x3 cell vectors, the six lattice constants and the PWscf celldm parameters describe the same lattice: converting back and forth reproduces lengths, angles and volume, and a cell rebuilt from lattice constants has a along x and b in the x-y plane. The reciprocal cell is dual to the cell (a_i.b_j = 2 pi delta_ij, volume (2 pi)^3/V), and a k-grid has the number of points nearest to |b_i|/h (respecting the minimum and even options) with spacing |b_i|/n_i. The functions for whole trajectories give the per-step result at every step.',
  'all non-degenerate 3x3 cells and lattice constants (orthogonal to very skewed, both orientations, any scale), all grid spacings and options, any number of steps along any time axis',
  'tests check a handful of cells and one grid; rounding of nearly parallel/orthogonal vectors, handedness, extreme aspect ratios, and option combinations are never reached',
  ['crys.py'], [('cell <-> lattice constants', 'crys.py: cell2cc, cc2cell, *3d'), ('volume', 'crys.py: volume_cell, volume_cc, *3d'), ('reciprocal cell and grids', 'crys.py: recip_cell, grid_in_cell, kgrid'), ('celldm', 'crys.py: cc2celldm, celldm2cc')])
p('C02', 'Coordinate transforms between bases are exact, axis-aware and invertible',
  'Transforming vectors from one basis to another yields the coordinates for which the same geometric vector results (sum_i c_i e_i is unchanged), for arrays of any rank, any position of the vector axis and one basis per time step; the reverse transformation restores the input. The compiled and the pure numpy routes give the same result, and inputs are left untouched unless in-place operation is asked for.',
  'all shapes, axes, invertible bases, integer or float, C or Fortran ordered or strided input arrays',
  'tests use a few random float arrays in C order with one axis layout',
  ['crys.py', 'num.py'], [('numpy transform', 'crys.py: coord_trans, coord_trans3d, _trans'), ('compiled transform', 'crys.py: Structure/Trajectory.get_coords, get_coords_frac; src/_ext_src/flib.f90')])
p('C03', 'Interatomic distances, angles and minimum images match their definition',
  'Distances, squared distances, distance vectors and bond angles between atoms equal those computed directly from the geometry, with the minimum-image rule wrapping each fractional difference into [-0.5, 0.5) for any number of periods, in all implementations (compiled, numpy, trajectory) alike. Angles cover all or the requested triples, are in [0,180] degrees or cosines, and honour the mask, degree, and self-exclusion conventions.',
  'all structures (any number of atoms, coincident or collinear atoms, atoms many periods outside the cell, any cell) and all option combinations',
  'tests compare implementations on a few random in-cell structures',
  ['crys.py'], [('minimum image', 'crys.py: min_image_convention'), ('distances', 'crys.py: distances, distances_traj; flib.f90: distsq_frac'), ('angles', 'crys.py: angles; flib.f90: angles'), ('squared distances', 'num.py: distsq')])

p('C04', 'Nearest-neighbour search returns exactly the right atoms, in order',
  'A nearest-neighbour query by count or by distance cutoff returns exactly the atoms a brute-force search over all other atoms finds (skipping the excluded elements), in order of increasing distance, as indices or with distances, for periodic and non-periodic structures. Given structure, precomputed distances or coordinates, and counts larger than the available atoms, it behaves the same or refuses.',
  'all structures, reference atoms, counts, cutoffs, skip sets, pbc settings',
  'tests check a couple of ordered structures with known neighbours',
  ['crys.py'], [('nearest neighbour queries', 'crys.py: nearest_neighbors, nearest_neighbors_struct, nearest_neighbors_from_dists')])

p('C05', 'Radial pair distribution equals brute-force pair counting',
  "The radial pair distribution of structures, trajectories or pairs of them, with any atom, time and distance masks, equals the histogram of (minimum-image) pair distances normalised by shell volume and pair density, averaged over time, and its coordination-number integral is the running sum of neighbours. A structure and its one-step trajectory, and an object and the list holding it twice, give the same result; mismatching objects and too large arrays are reported. The caller's inputs are not modified.",
  'all structures/trajectories, one or two objects, atom/time/distance masks, pbc on or off, bin widths, cutoffs',
  'tests compare stored reference curves for three fixed data sets',
  ['crys.py'], [('rpdf', 'crys.py: rpdf'), ('rmax', 'crys.py: rmax_smith')])

p('C06', 'Derived attributes of structures are consistent whatever is given',
  'A structure or trajectory built from any sufficient subset of its redundant inputs (fractional or Cartesian coordinates, cell or lattice constants, symbols, stress, velocity, times) derives all remaining quantities from the same physical system: coordinates match fractional coordinates times cell, volume, mass, pressure, species counts, symbols orderings and kinetic energy match their definitions. The result does not depend on the order in which attributes are requested or set, and what cannot be derived is reported as missing.',
  'all subsets of inputs, all orders of access, sizes 1..n atoms and steps, fixed and variable cells',
  'tests build a few fully specified objects and read attributes in one order',
  ['crys.py', 'base.py'], [('lazy getters', 'base.py: FlexibleGetters.try_set_attr, set_all, check_set_attr'), ('getters', 'crys.py: Structure.get_*, Trajectory.get_*')], over=('inputs', 'histories'))
p('C07', 'Unit conversion applies the right power of each unit exactly once',
  'Values given with a set of unit factors are converted exactly once into the standard units (length, energy, stress, forces, velocity, time), consistently across all quantities including those derived from them. Repeated completion of the object or copying it does not convert again, and conversion never changes quantities that are not concerned or the unit defaults used by other objects.',
  'all unit dictionaries, all attribute subsets, repeated set_all/copy histories',
  'tests check a single set of units for one parsed file and object',
  ['crys.py', 'base.py'], [('unit handling', 'base.py: UnitsHandler'), ('application', 'crys.py: Structure/Trajectory.set_all, _extend_arrays_apply_units, apply_units')], over=('inputs', 'histories'))
p('C08', 'Indexing, slicing and iterating a trajectory picks the right frames',
  'Indexing a trajectory with an integer gives the structure of that step, a slice gives the trajectory of exactly those steps with correspondingly scaled time step, and iteration yields all frames in order. Every time-dependent attribute is cut consistently, fixed attributes are kept, the original is not altered, and any number of iterations, complete, abandoned, or nested, give all frames.',
  'all trajectories, all integer indices and slices (also nested), any history of interleaved iteration and indexing',
  'tests slice a few fixed ways and iterate exactly once to the end',
  ['crys.py', 'num.py'], [('frame access', 'crys.py: Trajectory.__getitem__, __iter__, __next__'), ('slicing', 'num.py: slicetake')], over=('inputs', 'histories'))

p('C09', 'Combining, averaging and copying structures preserves the data',
  'Concatenating trajectories and structures yields the frames of all inputs in order; the mean of a trajectory is the per-attribute average over time; mixing two structures interpolates linearly between them; copies, compressed copies and trajectory views equal the original in all retained attributes. Copies are independent of the original in both directions.',
  'all lists of compatible structures/trajectories with common or differing attribute sets, any mixing parameter',
  'tests use a fixed pair of objects with the same attributes',
  ['crys.py'], [('combination', 'crys.py: concatenate, mean, mix, compress, Structure.copy, get_traj, compare in tests')], over=('inputs', 'histories'))
p('C10', 'Supercells contain every periodic image exactly once',
  'A supercell with given dimensions contains each atom of the original exactly once per requested lattice translation, keeps the atom order convention, multiplies the cell vectors and volume, and leaves interatomic geometry unchanged; structures and all steps of trajectories are treated alike. Positive and negative mask dimensions and both orderings enumerate exactly the prescribed translation vectors.',
  'all structures, trajectories, dimensions, orderings, methods',
  'tests check one or two 2x3x4 supercells',
  ['crys.py'], [('supercells', 'crys.py: scell_mask, scell, scell3d')])
p('C11', 'Wrapping, centring and rotating structures preserves the crystal',
  'Periodic wrapping moves coordinates by whole lattice vectors only into the cell (per axis as masked, leaving the other axes alone); centring puts the chosen atom at the cell centre and keeps all periodic distances. Aligning to new Cartesian axes rotates the whole object: lengths, angles, volume, handedness and fractional coordinates stay, vector quantities and stress turn with the cell, and axes which are not orthogonal are rejected. Inputs are unmodified unless in-place operation is requested.',
  'all structures/trajectories, masks, axes, copy modes, rotations',
  'tests use a few random structures and one axis order',
  ['crys.py'], [('wrapping', 'crys.py: pbc_wrap_coords, pbc_wrap'), ('centring', 'crys.py: center_on_atom'), ('alignment', 'crys.py: align_cart')])

p('C12', 'MD analysis quantities follow their physical definition',
  'Velocities from coordinates are the documented central differences (one-sided at the ends), RMSD is measured per atom against the chosen reference frame, and kinetic energy, temperature and time axes follow from velocities, masses and time step in the documented units. Results are invariant under the symmetries of the definition (shift of origin, permuting atoms) and scale with the time step; rms helpers equal their explicit sums. Inputs are never modified.',
  'all trajectories incl. 1-3 steps and single atoms, all reference indices, axes, integer or float input and options',
  'tests compare the formulas on one random trajectory of moderate length',
  ['crys.py', 'num.py'], [('velocity', 'crys.py: velocity_traj, Trajectory.get_velocity'), ('rmsd', 'crys.py: rmsd; num.py: rms, rms3d'), ('thermodynamics', 'crys.py: Trajectory.get_ekin, get_temperature, get_time')])

p('C13', 'Smoothing is a normalised kernel average that keeps length',
  'Smoothing data or a trajectory with a kernel equals explicitly averaging with mirrored edges and the normalised kernel: constants are preserved, the result has the input length, it acts independently on each column along the chosen axis, and all evaluation methods agree. Smoothing a trajectory smooths every time-dependent quantity alike and keeps everything else and the input unchanged.',
  'all data shapes, axes, kernels of odd or even length, edge modes, methods, trajectories with any attributes',
  'tests smooth a few arrays with hand-picked kernels',
  ['signal.py', 'crys.py'], [('smoothing', 'signal.py: smooth, gauss, lorentz, mirror'), ('trajectory smoothing', 'crys.py: smooth')])

p('C14', 'All autocorrelation methods compute the same defined function',
  'The normalised or unnormalised autocorrelation of a signal and the velocity autocorrelation of a trajectory equal the direct O(N^2) sum, and every implementation (Python loops, vectorised, FFT, Fortran, with several threads, with or without masses) gives that same function. Results do not depend on the memory layout and do not modify the inputs.',
  'all signals/velocity arrays from length 1-2 upward, all methods, flags, masses, memory layouts',
  'tests compare methods for one random array length',
  ['signal.py', 'pydos.py'], [('acorr', 'signal.py: acorr'), ('vacf', 'pydos.py: fvacf, pyvacf, vacf_pdos; flib.f90: acorr, vacf_methods')])

p('C15', 'Phonon densities of states are correct, normalised and method-consistent',
  'The phonon DOS equals its definition: the mass-weighted (if asked for) power spectrum of the windowed, padded or mirrored velocities summed over atoms and directions, on the frequency axis given by the time step, non-negative for the direct method and normalised to the requested area. The direct and the VACF-based methods agree when no windowing differences apply, and peaks appear at the frequencies of the oscillators. The full output holds the intermediate arrays of that same calculation and inputs are unchanged.',
  'all velocity arrays (steps, atoms), time steps, masses, pads, windows, methods',
  'tests compare the two methods on one trajectory',
  ['pydos.py', 'signal.py'], [('pdos', 'pydos.py: pdos, direct_pdos, vacf_pdos')])

p('C16', 'Signal transforms, padding, windows, filters and peak finding are exact',
  'Discrete Fourier helpers, frequency axes, sampling and time conversions, zero padding, mirroring, windows and scaling match their mathematical definition along any axis and for any length, for integer and float data. Digital filters pass and stop the bands requested, and peak search returns exactly the strict local maxima above the threshold, with refined positions at the maximum of smooth peaks. Inputs are never modified.',
  'all signal lengths (odd, even, prime), axes, pad sizes, window names, filter band settings, plateau/edge-free signals',
  'tests exercise a few lengths on last or first axis only',
  ['signal.py'], [('fft', 'signal.py: fft_1d_loop, dft, dft_axis, ezfft, fftsample'), ('padding/window', 'signal.py: pad_zeros, mirror, welch, lorentz, gauss'), ('filters', 'signal.py: FIRFilter'), ('peaks', 'signal.py: find_peaks, scale')])

p('C17', 'Polynomial fits reproduce the least-squares polynomial in any dimension',
  'Fitting a polynomial of degree n (all monomials with each exponent up to n) to points in any number of dimensions returns the least-squares solution: data from such a polynomial are reproduced, residuals are orthogonal to the basis, and scaling, shifting or permuting the data changes the described function accordingly, with or without internal scaling. One-dimensional fits also give the exact derivatives, and their extremum, root and monotonicity helpers solve the stated equation.',
  'all point sets, dimensions, degrees, scale flags, derivative orders',
  'tests use degrees and dimensions of a few fixed cases with scaled random data',
  ['num.py'], [('nd fit', 'num.py: polyfit, polyval, vander, poly_powers'), ('wrappers', 'num.py: PolyFit, PolyFit1D, Fit1D')])

p('C18', 'One- and n-dimensional interpolation and numeric calculus helpers are right',
  'Interpolators reproduce the data at the nodes (and the function for functions in their class), evaluate scalars and arrays alike and in any order, and their derivative, minimum, root and inversion solve the stated equation, inversion of values outside the data range being refused. Numerical derivative and normalised integration match the analytic results for the functions they are exact for. Two-dimensional interpolation finds its minimum and rejects unknown methods and malformed data.',
  'all monotone grids, function values, spline orders, query points inside/outside/at the borders',
  'tests evaluate one smooth function on one grid',
  ['num.py'], [('spline', 'num.py: Spline'), ('1d helpers', 'num.py: Fit1D.get_min, findmin, findroot'), ('nd interpolation', 'num.py: Interpol2D'), ('calculus', 'num.py: deriv_spl, norm_int')])

p('C19', 'RBF regression solves its linear system and differentiates consistently',
  'A radial-basis-function model with any supported kernel, shape parameter and ridge term reproduces the training data to the tolerance implied by the regularisation (exactly for interpolation of distinct points), its predictions equal the explicit kernel expansion, and its derivatives equal the derivative of its predictions. The value conditioning and hyperparameter search never change the caller\'s inputs, return the best parameters they evaluated, and repeated fits give identical results.',
  'all point sets/dimensions, kernels, p and r values, constant/zero targets, repeated fits',
  'tests cover two analytic functions with preset parameters',
  ['rbf/core.py', 'rbf/hyperopt.py'], [('fit and predict', 'rbf/core.py: Rbf'), ('hyperopt', 'rbf/hyperopt.py: FitError, fit_opt')], over=('inputs', 'histories'))
p('C20', 'Array helpers select, sort, reduce and compare exactly as numpy would',
  'Taking and putting slices along an axis, summing over several axes, extending, masking, ordering similar sequences, searching matches, meshing, distances and norms give the same result as the explicit loop definition for every axis, including negative ones, every shape and dtype. Inputs are unchanged and values written are found again at the same place only.',
  'all shapes (rank 1-4), axes incl. negative/tuples, dtypes, slice kinds, tolerances',
  'tests pick two or three shapes with non-negative axes',
  ['num.py'], [('axis helpers', 'num.py: slicetake, sliceput, sum, extend_array, rms'), ('matching', 'num.py: match_mask, order_similar, vlinspace, meshgridt'), ('distances and selection', 'num.py: distsq, norm, inner_points_mask, DataND')])

p('C21', 'Harmonic thermodynamics and QHA Gibbs minimisation are self-consistent',
  'Vibrational energy, entropy, free energy and heat capacity from a phonon DOS obey F = E - TS, Cv = dE/dT, S = -dF/dT, the zero- and high-temperature limits and scale linearly with the DOS, for all temperatures including very low ones. The quasi-harmonic Gibbs energy equals E + F_vib + PV on its grid of one to three cell parameters, its minimiser satisfies the minimum condition, and expansion, heat capacity and (for one volume axis) bulk modulus follow from that same surface. Debye and Einstein model functions and the thermal expansion helper match their definitions.',
  'all DOS shapes (with gaps, negative frequencies, low frequencies), temperatures, pressures, volume grids in 1-3 dimensions',
  'tests compare stored output of one DOS and one model QHA system',
  ['thermo.py'], [('harmonic formulas', 'thermo.py: HarmonicThermo, count, fvib, evib, svib, cv'), ('Gibbs', 'thermo.py: Gibbs, expansion'), ('debye', 'thermo.py: debye_func, expansion')])

p('C22', 'Equation-of-state fits recover the energy-volume curve and its derivatives',
  'Fitting energy-volume data generated from an equation of state recovers its equilibrium volume, energy, bulk modulus and pressure derivative, and the fitted curve, pressure P(V) = -dE/dV and bulk modulus B(V) = V d2E/dV2 are consistent with one another and with the least-squares solution. The minimum reported is a minimum of the fitted curve, and the energy offset, the units and (for the built-in fit) the order of points do not matter. A wrapped external fitting program gets the input documented and its output is returned.',
  'all physically sensible EOS parameters, data ranges, point orders, splines and fit backends',
  'tests fit one stored data set',
  ['eos.py'], [('fit', 'eos.py: EosFit, Vinet'), ('external wrapper', 'eos.py: ElkEOSFit, MaxDerivException handling')])

p('C23', 'The SQLite layer returns what was stored',
  'Creating tables, adding, filling and attaching columns, and reading rows, headers, dictionaries, lists and arrays give back exactly the stored values in row order and type for any history of operations, on empty and non-empty tables alike. Only the addressed rows, columns and table change; record and entry helpers quote and format any value such that it round-trips.',
  'all sequences of table/column operations with any values (quotes, unicode, None, floats), table and column names, start rows',
  'tests run a short fixed script on one table',
  ['sql.py'], [('database', 'sql.py: SQLiteDB'), ('entries', 'sql.py: SQLEntry, find_sqltype, sql_column, sql_matrix, makedb')], over=('inputs', 'histories'))
p('C24', 'A parameter study writes each calculation once, faithfully and restartably',
  "A parameter study creates one calculation directory per parameter set with all (unambiguous) placeholders replaced by exactly that set's values, a database row describing it, and a job script starting every calculation of that revision in its directory; indices and revisions continue across repeated runs. A study run again in the same place backs up or extends existing data as requested and never overwrites or loses earlier calculations and revisions. Convergence tables pair each value with its difference to the last or the next one.",
  'all parameter lists (combinations, nested, several machines and templates), index bases, histories of repeated runs and modes',
  'tests run one to three fixed studies',
  ['batch.py', 'sql.py', 'comb.py'], [('study', 'batch.py: ParameterStudy, Calculation, Machine'), ('parameter lists', 'comb.py: nested_loops; sql.py: sql_column, sql_matrix')], over=('inputs', 'histories', 'configurations'))

p('C25', 'Templates, backups and file utilities never lose or corrupt text',
  'Replacing placeholders in a template text changes exactly the placeholders asked for in one pass, warns about missing or duplicate ones and rejects wrong arguments as documented, and leaves all other text intact. Backing up a file, link or directory keeps every earlier version under a new unused name with the same content. Path, file and process helpers read, write and return exactly what was given.',
  'all template texts, keys, replacement values, existing files and backups, paths, repeated backups',
  'tests use one template and one or two backups',
  ['common.py', 'batch.py'], [('templates', 'common.py: template_replace, file_template_replace'), ('backup', 'common.py: backup'), ('paths, files and processes', 'common.py: fullpath, fpj, file_read, file_write, file_readlines, makedirs, backtick, system')], over=('inputs', 'histories'))

p('C26', 'Generic converters and parameter combinations are total and exact',
  'Text and value converters (floats incl. Fortran exponents, booleans, slices, sequences, string representations of values and arrays), sequence flattening and dict helpers return exactly the documented value for every accepted input and reject others. Parameter combination generation enumerates the full ordered Cartesian product, with linked parameters kept together, and removes exactly the duplicates.',
  'all strings/values in the documented domains, nested sequences of any depth, parameter lists of any structure',
  'tests check a few literals per function',
  ['common.py', 'comb.py', 'num.py'], [('converters', 'common.py: tobool, ffloat, toslice, str2seq, seq2str, frepr, str_arr, is_seq, flatten, dict2str'), ('combinations', 'comb.py: nested_loops, unique2d')])

p('C27', 'Arrays written to text are read back unchanged',
  'Every array written as text (rank one to three, any axis for the blocks, with or without header) is read back with identical shape and the values to the written precision. Header information, comments and stacking along another axis are honoured, for file names, open files and compressed files alike, and arrays parsed from program output text equal the numbers in it.',
  'all non-empty float/int arrays of rank 1-3 incl. length-one axes and extreme values, all axes, formats, comments, header lengths',
  'tests write one 2d/3d array with axis -1',
  ['arrayio.py'], [('write/read', 'arrayio.py: writetxt, readtxt, arr2d_from_txt, arr1d_from_txt'), ('header', 'arrayio.py: HEADER handling')])

p('C28', 'DCD trajectories are read exactly, in both flavours and by both readers',
  'A binary DCD trajectory file written with known cells and coordinates is read back exactly, by the Fortran and both Python readers alike, for LAMMPS and CP2K flavours, either cell convention and any number of atoms and steps, also if the number of steps in the header is wrong. Truncated or foreign files are reported or read as far as complete, never as wrong data.',
  'all atom/step counts, cells, coordinates, flavours, truncations at any byte',
  'tests read two stored files',
  ['dcd.py'], [('python reader', 'dcd.py: read_dcd_header, read_dcd_data, DCDFile'), ('fortran reader', 'dcd.py: read_dcd_data_f; src/_ext_src/dcd.f90')], over=('inputs', 'fault_sequences'))

p('C29', 'Structure file formats written are parsed back to the same structure',
  "A structure or trajectory written as CIF, XYZ, AXSF, LAMMPS data or WIEN2k sgroup text contains the same atoms in order, coordinates, forces and cell to the printed precision, in the documented units, and reading it with the package's own or an independent parser gives the original back. CIF and PDB files of other origin are read to the values in them, and every frame of a trajectory is written exactly once.",
  'all structures/trajectories, cells, symbols, coordinates inside and outside the cell, number of frames',
  'tests write files without reading them or read one stored file',
  ['io.py', 'lammps.py', 'parse.py'], [('writers', 'io.py: write_cif, write_xyz, write_axsf, write_lammps, wien_sgroup_input'), ('lammps text', 'lammps.py: struct_str'), ('readers', 'parse.py: CifFile, PDBFile; io.py: read_*')])

p('C30', 'Saved objects and HDF5 trees load back equal',
  'Any structure, trajectory or parser saved to a pickle, and any nested dictionary of arrays, numbers and strings saved to an HDF5 file, is loaded back with identical keys, types and values, in write, append and nested-group modes. Loading never modifies the stored file, appending keeps earlier entries, and the result is independent of key order and of leading slashes. Failing writes leave the file closed and usable.',
  'all nested dictionaries of arrays/scalars/strings, key spellings, modes, repeated write/append histories',
  'tests save one dictionary and one object',
  ['io.py', 'base.py'], [('pickle', 'io.py: read_pickle, write_pickle; base.py: FlexibleGetters.dump, load'), ('hdf5', 'io.py: write_h5, read_h5, load_h5')], over=('inputs', 'histories'))

p('C31', 'PWscf output is parsed to the physical values printed in it',
  'From the output text of PWscf SCF, MD, relaxation and variable-cell runs, the parsers return the energies, forces, stress, cells, coordinates, temperatures, symbols and step data exactly as printed, and the containers hold them in standard units, one entry per step in order, for any number of atoms and steps. Quantities that are absent are reported as missing without hindering the others, and all unit declarations for coordinates and cells (alat, bohr, angstrom, crystal) are honoured.',
  'all synthesised pw.x outputs over number of atoms/steps, calculation type, declared units, subset of printed blocks',
  'tests parse a few stored output files',
  ['parse.py'], [('scf', 'parse.py: PwSCFOutputFile'), ('md', 'parse.py: PwMDOutputFile'), ('variable cell', 'parse.py: PwVCMDOutputFile')])

p('C32', 'CP2K output is parsed to the physical values printed in it',
  'From the files a CP2K SCF, MD or cell-optimisation run writes, the parsers return energies, forces, stress, cells, coordinates, velocities, temperature and times exactly as printed, converted to standard units and with one entry per step in order, for any number of atoms and steps. Missing files or blocks are reported as missing quantities without hindering the others.',
  'all synthesised CP2K outputs over atoms/steps, available files and blocks',
  'tests parse a few stored runs',
  ['parse.py'], [('scf', 'parse.py: Cp2kSCFOutputFile'), ('md', 'parse.py: Cp2kMDOutputFile'), ('relax', 'parse.py: Cp2kRelaxOutputFile, Cp2kDcdMDOutputFile')])
p('C33', 'LAMMPS text and binary output is parsed to the values printed in it',
  'From a LAMMPS log with thermo data and text or DCD dump files the parsers return exactly the printed quantities, in standard units in the containers, per step and in atom order, with symbols from the element order given, for orthogonal and triclinic boxes and any number of atoms, steps, thermo columns and run blocks in one log. Repeated headers and the step repeated at run boundaries are handled as documented, and missing quantities are reported as missing.',
  'all synthesised logs/dumps over atoms, steps, columns, number of run blocks',
  'tests parse a few stored runs',
  ['parse.py', 'dcd.py'], [('text', 'parse.py: LammpsTextMDOutputFile'), ('dcd', 'parse.py: LammpsDcdMDOutputFile')])

p('C34', 'CPMD output is parsed to the values printed in it',
  'From the files of CPMD single-point, MD and variable-cell runs the parsers return coordinates, velocities, forces, cells, energies, stress, temperatures and symbols exactly as printed, in standard units, in the atom order of the output and with one entry per step, for any number of atoms, species and steps. Missing files leave the remaining quantities available.',
  'all synthesised CPMD runs over atoms, species grouping, steps, available files',
  'tests parse a few stored runs',
  ['parse.py'], [('scf', 'parse.py: CpmdSCFOutputFile'), ('md', 'parse.py: CpmdMDOutputFile')])
p('C35', 'A parser\'s result never depends on what was parsed before',
  'What a parser returns for given files and units depends only on those files and units: creating or using any other parsers or objects before, in any order and with any units, leaves it unchanged, and parsing the same file again gives the same result. User-supplied units override the defaults of that parser only.',
  'all interleavings of creation and use of the parser classes with arbitrary unit settings',
  'each test uses one parser in a fresh or fixed order',
  ['parse.py', 'base.py', 'calculators.py'], [('defaults', 'parse.py: default_units of the parser classes, StructureFileParser, UnitsHandler')], over=('histories', 'configurations'),
  state=[('default units', 'unit factors a parser class starts from', 'parse.py: default_units class attributes')])
p('C36', 'PWscf input generation and phonon file reading are faithful',
  'Input text blocks generated for PWscf (atomic positions, species, k-points) contain exactly the given values in order, to the precision asked for; Bravais-lattice cells generated from celldm have the documented vectors, volume and lattice constants. Phonon frequencies, q-points and displacement vectors read from matdyn, dynmat and dyn files equal the numbers in the file for any number of modes and q-points.',
  'all atoms/species lists, k-points, mode strings, ibrav/celldm values, synthesised phonon files',
  'tests use a few stored files and one structure',
  ['pwscf.py', 'parse.py'], [('input strings', 'pwscf.py: atpos_str, atpos_str_fast, atspec_str, kpoints_str, kpoints_str_pwin, kpoints_str_pwin_full'), ('bravais', 'pwscf.py: ibrav2cell'), ('phonon files', 'pwscf.py: read_matdyn_modes, read_matdyn_freq, read_dyn, read_dynmat_out, read_dynmat_ir_raman')])

p('C37', 'Primitive cells and space groups do not depend on the setting of the crystal',
  "The primitive cell describes the same crystal as the input (same composition, density, interatomic distances and space group, a whole number of times smaller), also for shifted origins, permuted atoms, supercells and rotated frames, and an already primitive cell is reported as having no smaller one. The space group found is that of the crystal for all these settings, and two structures are the same exactly if cells, symbols and positions agree within the tolerances. Inputs are not modified and conversions to and from spglib's form lose nothing.",
  'all crystals built from known space groups and Wyckoff-like positions, symprec values, random origins/orders/supercells',
  'tests use a couple of standard crystals',
  ['symmetry.py'], [('spglib interface', 'symmetry.py: spglib_get_primitive, spglib_get_spacegroup, is_same_struct, spglib2struct, struct2spglib')])

p('C38', 'k-paths and dispersion plots are connected, complete and labelled right',
  'A k-path through given vertices contains each vertex exactly once in order, points are equidistant along each edge with the requested number per edge, and the path coordinate is the cumulative length. Dispersion plots draw every band against that coordinate, with lines, ticks and labels at the special points in their order, from fractional or Cartesian coordinates and any optional subset of them.',
  'all point sequences, segment counts, densities, reciprocal cells, label sets',
  'tests compare one short path',
  ['kpath.py', 'num.py'], [('paths', 'kpath.py: kpath, get_path_norm, SpecialPointsPath, plot_dis; num.py: vlinspace')])

p('C39', 'Random structure generation meets its constraints',
  'Random structures have the requested symbols in order and cell, volume, lattice constants and angles in the allowed ranges, and keep every pair of distinct atoms farther apart (in all periodic images) than the given fraction of the sum of their covalent radii. If the constraints cannot be met within the tries allowed it says so instead of returning a violating structure, and results are reproducible from the random seed.',
  'all compositions, volume scales, close-atom scales, angle ranges, seeds',
  'tests generate one structure and only check it exists',
  ['random.py'], [('generator', 'random.py: RandomStructure, RandomStructureFail')])

p('C40', 'Plot-support data containers and helpers keep the data relation intact',
  'Two-dimensional scan data converted between point lists, value vectors and grids keep each value attached to its point for any order and size, also after updates and copies. Axis, tick, colour and legend helpers change exactly the objects asked for, with the values asked for, and plotting helpers draw exactly the data given. Input data are not altered.',
  'all grids, orders, sizes, helper parameters, colour/line collections',
  'tests check one 2d data set',
  ['mpl.py'], [('2d data', 'mpl.py: Data2D, get_2d_testdata'), ('helpers', 'mpl.py: smooth_color, new_axis, collect_legends, color_ax, clean_ax3d, plotlines3d, Plot')])

p('C41', 'ASE conversion and calculator wrappers are loss-free and isolated',
  'Conversion between structures and ASE atoms keeps cell, positions (modulo lattice vectors along periodic axes), symbols and masses both ways; stress in the Voigt order, sign and unit expected by ASE, energies and forces (in the frame of the atoms) are converted exactly once and correctly. Calculator wrappers write input files containing exactly the parameters given merged over the defaults, run in their directory and report failures. One instance never changes the defaults or the results of another.',
  'all structures, stress tensors, parameter dictionaries, sequences of calculator instances',
  'tests need external binaries or use one fixed object',
  ['calculators.py', 'crys.py'], [('conversion', 'crys.py: atoms2struct, struct2atoms, tensor2voigt, voigt2tensor, Structure.get_ase_atoms'), ('calculators', 'calculators.py: CalculatorBase, Pwscf, Lammps, find_exe')], over=('inputs', 'histories', 'configurations'))

p('C42', 'Physical constants, element data and small runtime helpers are consistent',
  'Derived physical constants satisfy their defining relations among each other and against independent references, element tables are complete, ordered and mutually consistent, and barostat and thermostat mass helpers obey their scaling relations. Lazily computed attributes and getters are evaluated once per instance when needed and never fail for what is missing, instances are independent, timers report elapsed time for the matching tag only, and messages appear only when verbosity is on.',
  'all constants, elements, temperatures, sizes, access histories of lazy properties, timer tag histories',
  'tests touch a few of these values at most',
  ['constants.py', 'atomic_data.py', 'mttk.py', 'decorators.py', 'timer.py'], [('constants', 'constants.py'), ('elements', 'atomic_data.py: pt, symbols, masses, numbers'), ('thermostat masses', 'mttk.py'), ('lazy properties', 'decorators.py: lazyprop; base.py: FlexibleGetters'), ('timers', 'timer.py: TagTimer'), ('messages', 'verbose.py')], over=('inputs', 'histories'))

p('C43', 'Command-line scripts in bin/ agree with the library and cut files exactly',
  'The converters (cif2any, cif2sgroup, pdb2cif, matdyn2fqha, plot_dispersion, solvate) print for every valid input file the same structure, DOS or bands, in the units of each section and consistently within a section. cut-cpmd.sh and cut-cp2k.sh leave exactly the time steps before the given one in every output file that exists, keep the original as backup and touch nothing else. Wrong usage and simulation mode change no file.',
  'all valid command lines, input structures, DOS and dispersion files, and MD output files starting at any step',
  'no existing test runs the scripts',
  ['bin/'], [('scripts', 'bin/*.py, bin/*.sh')], over=('inputs', 'configurations'))

p('C44', 'External viewers and VMD get exactly the object and leave nothing behind',
  'Every viewer call starts the documented command line on a file which holds the structure or trajectory passed, as the corresponding writer makes it, and rejects objects the viewer cannot show before anything is started. Temporary files and file descriptors are gone afterwards unless they are to be kept, also if the viewer fails; a background call returns at once. vmd_measure_gofr passes the selected time steps and parameters and returns the data VMD writes.',
  'all structures, trajectories, viewers, options and outcomes of the viewer',
  'no existing test starts a viewer; VMD tests are skipped without VMD',
  ['src/pwtools/visualize.py', 'src/pwtools/crys.py'], [('ViewFactory.__call__', 'src/pwtools/visualize.py'), ('vmd_measure_gofr', 'src/pwtools/crys.py')], over=('inputs', 'configurations'))

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
