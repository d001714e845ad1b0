"""Write properties.jsonl (the texts live here, one per property)."""
import json
import os

PKG = 'atooms/postprocessing/'


def P(pid, title, statement, over, text, why, files, mech, observe=None):
    d = {'id': pid, 'title': title, 'statement': ' '.join(statement.split()),
         'quantifier': {'over': over, 'text': ' '.join(text.split())},
         'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': [f if '/' in f else PKG + f for f in files],
                     'mechanism': [{'name': n, 'where': w if '/' in w else PKG + w} for n, w in mech],
                     'hook_needed': None}}
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(d['title']) <= 80, d['title']
    return d


ALL = [
P('C01', 'One-body time correlations equal their textbook definitions',
  """The mean square displacement, velocity autocorrelation, non-Gaussian parameter, self overlap, collective
  overlap and stress autocorrelation computed from a trajectory equal their definition, averaged over particles and over all the selected time
  origins, with the times expressed in the units of the trajectory. This holds in any dimension, for folded or
  unfolded stored positions, any regular or periodic block sampling of frames, any time step, and any requested or
  default grid. The derived quantities (diffusion coefficient and diffusive time of the mean square displacement,
  relaxation time of the self overlap at 1/e, peak of the non-Gaussian parameter) follow from these values.""",
  ['inputs', 'configurations'],
  """all particle walks over a small alphabet of displacements, and all trajectories x parameters within a bound on
  the number of departures from a default configuration""",
  """The tests compare four or five values of three functions, to within 4%, on one LJ trajectory; an off-by-one
  in the origins, a missed frame or a wrong factor in d != 3 is invisible there.""",
  ['msd.py', 'vacf.py', 'alpha2.py', 'qt.py', 'sacf.py', 'correlation.py', 'helpers.py'],
  [('gcf_offset', 'correlation.py'), ('MeanSquareDisplacement._compute', 'msd.py'),
   ('VelocityAutocorrelation._compute', 'vacf.py'), ('NonGaussianParameter._compute', 'alpha2.py'),
   ('self_overlap, collective_overlap', 'qt.py')], ['(grid, value) returned by compute()']),
P('C02', 'Every requested time is served by the nearest available one, once',
  """The time grid of a result is increasing, without duplicates, and consists exactly of the available time
  separations that are nearest to the requested times (ties may go either way). The available separations are those
  between frames within the sampling pattern of the trajectory; requests beyond the end get the largest available
  one, and with a single origin only separations from the first frame are used.""",
  ['inputs', 'configurations'],
  'all increasing step sequences of bounded length and gaps, all subsets of a request alphabet, with and without offset',
  """Tests use one linear and one logarithmic trajectory and look at 4 entries of the grid; the rounding and the
  block offsets matter for step patterns they do not have.""",
  ['helpers.py', 'correlation.py', 'fkt.py', 'msd.py', 'qt.py', 'vacf.py'],
  [('setup_t_grid', 'helpers.py'), ('_templated/_setup grids of the correlation functions', 'correlation.py')],
  ['grid returned by compute()']),
P('C03', 'norigins selects equally spaced time origins, consistently everywhere',
  """For every correlation function, norigins (number, fraction or string) selects frames equally spaced by a whole
  number of sampling blocks, starting from the first: None means a frame interval that keeps origins x particles
  around 40000 (one origin per block for block sampling), negative means one origin per block, 1 or '1' means the
  first frame only, n>1 at least min(n, available) origins, and a fraction x every int(1/x) blocks. Equivalent ways to
  write the same request ('0.2' and 0.2, '3' and 3) give the same result.""",
  ['inputs', 'configurations'],
  'all number-of-frames, block sizes and norigins values of a finite alphabet, for every correlation function',
  """Tests never compare two values of norigins; the interval is an integer division which is wrong only for
  particular combinations of frames and blocks.""",
  ['helpers.py', 'correlation.py', 'gr.py', 'sk.py', 'ba.py', 'ik.py', 'fkt.py', 'qt.py', 'chi4t.py'],
  [('adjust_skip', 'helpers.py'), ('Correlation.__init__ / skip', 'correlation.py')], ['(grid, value)']),
P('C04', 'g(r) counts every pair once, in the right bin, with the right norm',
  """The radial distribution function equals, bin by bin, the number of pairs of distinct particles at minimum-image
  distance within the bin, normalized by the ideal-gas expectation for the shell, averaged over the sampled frames.
  The pure Python and the f90 backend, with or without linked cells, agree; the grid extends to half the smallest
  side, or to rmax, and honours dr or a requested uniform grid. With a non-periodic cell only centers farther than
  rmax from the boundary are used.""",
  ['inputs', 'configurations'],
  """all placements of few particles on a small lattice (with images), and all configurations within a bound of
  departures from a default, for both backends""",
  """Tests compare four bins of one 3D cubic periodic trajectory within 4%; boundary bins, elongated or fluctuating
  cells, empty species, d=2 and linked cells are not exercised.""",
  ['gr.py', 'realspace.f90', 'linkedcells.py'],
  [('RadialDistributionFunctionLegacy._compute', 'gr.py'), ('RadialDistributionFunctionFast._compute', 'gr.py'),
   ('gr_self_c, gr_distinct_c, gr_neighbors_*_c', 'realspace.f90')], ['(grid, value)']),
P('C05', 'Linked cells find every pair within the cutoff exactly once',
  """The neighbors provided by the linked cells contain every pair of particles closer than the cutoff (minimum image
  along periodic directions, plain distance along the others): exactly once with Newton's third law, and once from
  each side otherwise or between two groups; no particle is its own neighbor within one group. The same object can be
  reused with other positions and other boxes.""",
  ['inputs', 'histories', 'configurations'],
  """all pairs of particles over a lattice of positions straddling all cell boundaries (inside, at and outside the
  box), all cell shapes with at least three subcells per side, and all short histories of calls""",
  'The single test compares one random configuration in a cubic box.',
  ['linkedcells.py'], [('LinkedCells.adjust/_map/_index/compute', 'linkedcells.py')],
  ['LinkedCells.compute() return value']),
P('C06', 'S(k) equals the density fluctuations at the reported wave-vectors',
  """The structure factor at each k point is the average of rho_0(k) rho_1*(k), for the two groups of particles, over the wave-vectors of
  that point and the sampled frames, normalized by the geometric mean of the numbers of particles of the two groups;
  with a weight, fluctuations around the average weighted density are used. Both implementations agree, for total,
  partial and cross terms, in 2 and 3 dimensions, also when the cell changes with time (wave-vectors follow the cell).""",
  ['inputs', 'configurations'],
  'all placements on a lattice (where S(k) is 0 or N by symmetry), and configurations within a bound of departures',
  """Tests check a few values within tolerance on one cubic trajectory and do not cover cross terms of the fast
  version, weights with cross terms, or elongated cells.""",
  ['sk.py', 'fourierspace.py', 'fourierspace.f90'],
  [('StructureFactorLegacy._compute', 'sk.py'), ('StructureFactorFast._compute', 'sk.py'),
   ('expo_sphere', 'fourierspace.py'), ('sk_bare', 'fourierspace.f90')], ['(grid, value), value_nonorm']),
P('C07', 'Wave-vectors are commensurate, distinct, within dk, at most nk each',
  """Every wave-vector used by a Fourier-space correlation is commensurate with the simulation cell; each k point gets
  between 1 and nk distinct vectors whose norm is within dk of the requested value (dk is enlarged only for a shell
  that would be empty), no vector is shared by two points, and all the fitting ones are used when they are no more
  than nk. The reported k grid is the average norm of the vectors of each point; vectors given by the user are
  used as they are and the choice of vectors is reproducible and does not depend on filters.""",
  ['inputs', 'configurations'],
  'all combinations of cell shape, dimension, k grid, dk, nk of finite alphabets; all small sets of user vectors',
  'Tests check a sorted/unsorted grid and one user-defined grid on one cubic cell.',
  ['fourierspace.py'],
  [('FourierSpaceCorrelation._setup', 'fourierspace.py'), ('_setup_grid_sphere', 'fourierspace.py'),
   ('kvectors', 'fourierspace.py')], ['kvectors, kgrid, report(), grid']),
P('C08', 'F(k,t) and F_s(k,t) equal their definitions at the reported k and t',
  """The self and coherent intermediate scattering functions equal the real part of the time correlation of the
  (single-particle, respectively collective) density at the reported wave-vectors, averaged over vectors, particles
  and time origins and, when normalized, divided by the value at t=0 (which is added to the grid). The Python and f90
  versions agree, whatever the number of particles per internal block or the memory allotted to the tabulation, and
  the relaxation time is the time at which the function crosses 1/e of its initial value.""",
  ['inputs', 'configurations'],
  'configurations within a bound of departures from a default, all walks over a small alphabet',
  """Tests compare few values of F(k,t), F_s(k,t) for one cubic trajectory; internal blocks of 20-200 particles,
  elongated cells, cross terms and non-uniform sampling are not reached.""",
  ['fkt.py', 'fourierspace.py', 'fourierspace.f90', 'helpers.py'],
  [('SelfIntermediateScatteringLegacy/Fast._compute', 'fkt.py'), ('IntermediateScattering._compute', 'fkt.py'),
   ('_extract_tau, feqc', 'fkt.py'), ('fskt_kernel_*d', 'fourierspace.f90')],
  ['(grid, value), value_nonorm, analysis']),
P('C09', 'The bond-angle distribution counts all angles between neighbors',
  """The bond-angle distribution equals the normalized histogram of all the angles formed at each central particle by
  ordered pairs of distinct neighbors, neighbors being the particles within the cutoff distance (minimum image)
  assigned to the two species, over the sampled frames; angles of 180 degrees are included and the distribution
  integrates to one. By default, cutoffs are at the first minima of the partial g(r) after their maxima. Partial
  distributions use the central species of the first, and the neighbors of the second
  filter.""",
  ['inputs', 'configurations'],
  'all placements of 3-5 particles on a lattice, all cutoff matrices of a finite alphabet, 2 species, 2D/3D',
  'The only test compares a few bins of one trajectory.',
  ['ba.py', 'realspace.f90'],
  [('BondAngleDistribution._compute', 'ba.py'), ('neighbors, bond_angle', 'realspace.f90')], ['(grid, value)']),
P('C10', 'Dynamic susceptibilities are variances over time origins times N',
  """The four-point susceptibility of the self overlap (plain and optimized versions) equals the variance over time
  origins of the self overlap, times the number of particles, at each time of the grid; the average and the variance
  files written next to it agree with it. The generic susceptibility built from any correlation function is
  N times the variance over the sub-trajectories of that function.""",
  ['inputs', 'configurations'],
  'all walks over a small alphabet, and configurations within a bound of departures from a default',
  'Tests check one value for one trajectory and one time grid.',
  ['chi4t.py', 'susceptibility.py', 'qt.py'],
  [('Chi4SelfOverlapLegacy._compute', 'chi4t.py'), ('Chi4SelfOverlapOptimized._compute', 'chi4t.py'),
   ('Susceptibility', 'susceptibility.py')], ['(grid, value), output files']),
P('C11', 'Spectral density and S_4(k,t) follow their definition',
  """The spectral density equals the squared modulus of the indicator function of the particles (spheres with the
  radii read from the companion trajectory, at the same steps) in Fourier space, averaged over wave-vectors and
  frames, per unit volume. The four-point structure factor equals the variance over time origins of the Fourier
  transform of the single-particle overlaps, per particle, averaged over the wave-vectors of each k.""",
  ['inputs', 'configurations'],
  'configurations within a bound of departures from a default',
  'The tests check the spectral density on one file at few k values; S_4(k,t) has no test at all.',
  ['ik.py', 's4kt.py', 'fourierspace.py'],
  [('SpectralDensity', 'ik.py'), ('S4ktOverlap', 's4kt.py')], ['(grid, value)']),
P('C12', 'Filters and partials are the correlation of the selected subset',
  """A filtered correlation (one or two filters, as callbacks or as boolean expressions on particle attributes) equals
  the unfiltered correlation of a trajectory that only contains the selected particles; Partial returns, for every
  species or pair of species, what the corresponding filters give. Consequently partial results recombine into the
  total ones (weighted by concentrations) and are independent of the order in which species are listed.""",
  ['inputs', 'configurations'],
  """all assignments of species to few particles, all boolean filters over an alphabet of attributes, all correlation
  functions, including frames in which species change or particles disappear""",
  'Tests compare partials with reference values of one 80:20 mixture with constant composition.',
  ['partial.py', 'filter.py', 'correlation.py'],
  [('Partial', 'partial.py'), ('Filter', 'filter.py'), ('add_filter, filter_*', 'correlation.py')],
  ['partial dict, (grid, value)']),
P('C13', 'A calculation does not disturb its inputs nor later calculations',
  """Whatever sequence of calculations, filters, partials and option combinations is run on shared trajectory objects
  and shared argument lists, each one gives exactly what it would give alone in a fresh process. Computing leaves the
  user's grids and lists, the positions in a (possibly cached) trajectory, its callbacks, and the global random state
  as they were.""",
  ['histories', 'inputs'],
  'all sequences of operations up to a bounded depth on shared objects (breadth-first over the reachable states)',
  'Each test creates fresh objects and runs one calculation.',
  ['correlation.py', 'fourierspace.py', 'partial.py', 'filter.py', 'helpers.py', 'fkt.py', 'msd.py'],
  [('Correlation._setup_arrays_*', 'correlation.py'), ('Unfolded/fix_cm handling', 'correlation.py'),
   ('local random generator', 'fourierspace.py'), ('copies of kgrid', 'fourierspace.py')],
  ['values, trajectory frames, argument lists, random.getstate()']),
P('C14', 'Computing again gives the same result',
  """Calling compute() or do() any number of times on the same object, possibly after adding a filter or a weight,
  gives the same grid and values as a new object set up in the same way; nothing accumulates.""",
  ['histories', 'configurations'],
  'all short histories of compute/do/write/add_filter on every correlation class and on Partial/Filter wrappers',
  'Tests call compute() once per object.',
  ['correlation.py', 'chi4t.py', 'ba.py', 'fourierspace.py', 'gr.py'],
  [('reset of the arrays in compute', 'correlation.py'), ('_setup (k grid)', 'fourierspace.py')], ['(grid, value)']),
P('C15', 'Output files carry the computed data, under the documented names',
  """Writing a correlation produces a text file, at the path given by the output pattern (symbol, tag, filename
  substituted) with title, column names, and data that read back to the computed grid and values within the printed
  precision; 1D and 2D (k,t) grids of any size round-trip, and derived analysis is listed in the header. Derived files
  (relaxation times, averages, variances) are written alongside with matching content; with output disabled nothing is
  written, and with standard output data go there only.""",
  ['inputs', 'configurations'],
  'all grid sizes 1..4 x 1..4 and special values, all correlation classes, all output patterns of an alphabet',
  'Tests do not read back what they write, except for one comparison of S(k).',
  ['correlation.py', 'core.py', 'fkt.py', 'chi4t.py', 'partial.py'],
  [('Correlation.write/read/_output_file/_write_*', 'correlation.py'), ('pp_output_path', 'core.py')],
  ['files in the output folder']),
P('C16', 'With update, stale or missing outputs are recomputed, fresh ones kept',
  """do(update=True) skips the calculation exactly when the output file already exists and is more recent than the
  trajectory file, and in that case leaves the file untouched and delivers its content (functions of one variable; files
  of functions of two variables cannot be read back, a documented limitation); in all other cases it computes and writes. After any history of trajectory changes and updates, the output equals what a fresh calculation
  with the same options would give.""",
  ['histories'],
  'all sequences, up to a bounded depth, of {modify trajectory, touch, delete output, do(update), do()} under a logical clock',
  'The single test checks that a second call with update does not recompute.',
  ['correlation.py', 'partial.py', 'api.py'],
  [('Correlation.need_update', 'correlation.py'), ('do(update)', 'correlation.py'), ('Partial.do', 'partial.py')],
  ['output files, modification times, values']),
P('C17', 'An interrupted run never leaves an output that update would trust',
  """If the process dies, or the disk fills up, at any point while outputs are being written, every output file
  present is either absent, the complete previous version, or the complete new one; running again with update then
  yields a complete, correct set of outputs, including derived files and all partials.""",
  ['crash_points', 'fault_sequences'],
  'every crash point (each executed line and each write call) of the writing of outputs, and every failing write',
  'No test interrupts a calculation.',
  ['correlation.py', 'fkt.py', 'chi4t.py', 'partial.py'],
  [('Correlation._open (temporary file + rename)', 'correlation.py'), ('order of files in write()', 'fkt.py')],
  ['files left in the output folder after the crash, and after a subsequent update']),
P('C18', 'Command line and API options reach the calculation and mean the same',
  """Each high-level function and command-line subcommand writes, for every input file, the same data as the
  corresponding correlation object built by hand with the same options: frame selection (first/last/skip), number of
  origins, grids, filters, species partials, weights, time-step, centering, cell changes, caching, fast or legacy
  versions, k-space parameters, file format and layout. Options left out have their documented default effect.""",
  ['configurations', 'inputs'],
  'all sets of at most k options departing from default, for every function and subcommand, on files written to disk',
  'Tests call each function once or twice with default options and do not look at the output.',
  ['api.py', 'bin/pp.py', 'core.py'],
  [('api functions', 'api.py'), ('argument parser', 'bin/pp.py'), ('global options', 'api.py')],
  ['files written by pp.py / api functions']),
P('C19', 'Numeric helpers satisfy their contracts',
  """The helper functions behave as documented for all admissible arguments: linear and logarithmic grids have the
  requested end points, sizes and monotonicity (by convention, a logarithmic grid starting from 0 is one starting from
  1, displaced by one); threshold crossing returns the interpolated first crossing; local
  maximum/minimum search, linear regression, skip and grid setup, and the generic two-time correlation routine return
  the mathematically defined result.""",
  ['inputs'],
  'all small integer-valued sequences and parameter combinations of finite alphabets',
  'Tests check one helper on one sequence.',
  ['helpers.py', 'correlation.py'],
  [('linear_grid, logx_grid, feqc, ifabsmm, linear_fit', 'helpers.py'), ('gcf, gcf_offset, acf', 'correlation.py')],
  ['return values']),
P('C20', 'Results do not depend on periodic images, origin or particle order',
  """Observables of a periodic system do not change if particles are stored in another periodic image, the whole
  system is translated rigidly, particles of a trajectory are relabelled consistently, or the axes are permuted
  together with the cell. Mean square displacements (and other functions of displacements) from folded positions equal
  those from unfolded ones as long as the cell is constant and displacements between frames stay below half of it.
  (The collective overlap Q(t) does not account for periodic boundaries by definition.)""",
  ['inputs', 'configurations'],
  'all image vectors in {-1,0,1}^(N x d) for small N, all permutations of few particles and axes, a lattice of shifts',
  'Tests use stored configurations folded in the central cell only.',
  ['correlation.py', 'realspace.f90', 'gr.py', 'ba.py', 'fourierspace.py', 'linkedcells.py'],
  [('minimum image in kernels', 'realspace.f90'), ('Unfolded', 'correlation.py')], ['(grid, value)']),
P('C21', 'fix_cm removes the motion of the center of mass, exactly and only that',
  """With fix_cm the result equals the one obtained from the trajectory in the frame of its (mass weighted) center of
  mass, so it does not change if an arbitrary uniform time-dependent drift is superposed, for any function
  accepting the option, with one or two filters, folded or unfolded storage; without fix_cm the drift contributes
  in full. The center of mass is that of the whole system, also for partial correlations.""",
  ['inputs', 'configurations'],
  'all drifts over a small alphabet per frame, masses, filters, functions, storage of positions',
  'No test uses fix_cm.',
  ['correlation.py', 'msd.py', 'fkt.py', 'api.py'],
  [('fix_cm in _setup_arrays_*', 'correlation.py')], ['(grid, value)']),
P('C22', 'Compiled kernels never access memory out of bounds',
  """For every input reachable through the Python interface (any number of particles per group, including one or none,
  any number of neighbors, distances and angles at or beyond the edges of the histograms, elongated cells, any set
  of wave-vectors) the compiled kernels stay within their arrays.""",
  ['inputs', 'configurations'],
  'all configurations within a bound of departures from a default, run on kernels compiled with bounds checking',
  'Out-of-bounds accesses are silent in the normal build and tests only use well-behaved configurations.',
  ['realspace.f90', 'fourierspace.f90', 'gr.py', 'ba.py', 'sk.py', 'fkt.py'],
  [('guards on bins', 'realspace.f90'), ('sizes of arrays passed by Python', 'ba.py')],
  ['run-time error of the instrumented kernels']),
P('C23', 'Analyses running at the same time do not spoil each other',
  """Several processes can analyze trajectories and write the same outputs, or outputs in the same folder, at the same time
  (the same function twice, total and partial functions, with or without update, the folder possibly not existing yet).
  Whatever the order in which their accesses to the files interleave, no process fails, each output is at any time absent,
  or a complete one of some process; in the end, all outputs are there, complete, nothing else is left in the folder,
  and each process delivers the results of a complete calculation.""",
  ['interleavings', 'schedules'],
  'all interleavings of the accesses to the folder of two processes (with a bound on preemptions if there are many outputs)',
  'Tests run one analysis at a time; races depend on the schedule.',
  ['correlation.py', 'partial.py', 'fkt.py', 'chi4t.py', 'api.py'],
  [('Correlation.write', 'correlation.py'), ('need_update and read', 'correlation.py'), ('files with relaxation times', 'fkt.py')],
  ['content of the output folder', 'exit of the processes', '(grid, value)']),
P('C24', 'User-defined correlation functions get the phase space they ask for',
  """A user-defined subclass of Correlation, as described in the docs, finds in the arrays _pos, _vel, _pos_unf (_pos_0, _pos_1, ...
  for two-body functions) exactly the positions, velocities and unfolded positions of the particles, frame by frame, of each
  filtered group, for any subset of variables requested through `phasespace` (string, list or tuple), with or without
  fixed center of mass, for any storage of the trajectory (or given a path to it), and each time it is computed. The
  recipes of the docs for static and dynamic functions work alone, through Partial and Filter, with do() and update.""",
  ['inputs', 'configurations'],
  'all subsets of variables, forms of phasespace, bodies, filters and all configurations within a bound of departures from a default',
  'Tests only use the built-in functions, each of which uses one subset of variables.',
  ['correlation.py', 'partial.py', 'filter.py', 'helpers.py'],
  [('Correlation._setup_arrays', 'correlation.py'), ('Correlation.add_filter', 'correlation.py'), ('setup_t_grid', 'helpers.py')],
  ['arrays seen by the subclass', '(grid, value)', 'output files']),
P('C25', 'Results follow changes of units, labels, direction of time and system size',
  """Expressing the same trajectory, and the parameters of the calculation, in other units of length, time, mass, velocity or
  weight (however small or large, e.g. SI ones), multiplying or shifting the steps, or renaming the species, multiplies grids,
  values and extracted quantities (relaxation times, diffusion coefficients, peaks) by the powers of the units and nothing
  else, for the total and all partial functions. Reversal of time leaves time correlation functions unchanged, any order and
  repetition of the frames leaves static ones unchanged, and replicating the periodic system leaves intensive functions unchanged
  and multiplies extensive ones (chi4, stress correlations) by the number of replicas.""",
  ['inputs', 'configurations'],
  'all combinations of units, steps and labels out of finite sets; all walks over an alphabet, orders of a few frames, replications in {1,2}^d',
  'Tests only use reduced units and one labelling, in which absolute thresholds and rounding are invisible.',
  ['helpers.py', 'correlation.py', 'msd.py', 'alpha2.py', 'gr.py', 'ba.py', 'fkt.py', 'sk.py', 'ik.py', 'fourierspace.py', 'realspace.f90',
   'fourierspace.f90'],
  [('setup_t_grid', 'helpers.py'), ('FourierSpaceCorrelation._setup', 'fourierspace.py'), ('gr_self', 'realspace.f90'),
   ('analyze', 'msd.py')],
  ['(grid, value)', 'extracted quantities']),
P('C26', 'Results depend on the data of the trajectory, not on how it is provided',
  """The same frames (steps, time step, cell, species, masses, positions, velocities) give the same grids and values whatever object or
  file provides them: a trajectory in memory (with or without copies of its systems, cache or a file name), a file (xyz or extended
  xyz, compressed or not, given as a path or an object), a folder of files, a sequence of files, a slice or a part of a longer
  trajectory, a trajectory with callbacks or views, attributes of particles stored with other types, precisions or memory layouts. Arguments may
  be lists, tuples, ranges or arrays of integers, floats or numpy numbers, with the same meaning, and are not modified.
  This holds for every function, total, partial, filtered, weighted or with fixed center of mass, for repeated
  calculations on the same object, and what is stored in memory is left as it was.""",
  ['inputs', 'configurations'],
  'all pairs of ways to provide the data and functions, in several kinds of trajectories, in 2 and 3 dimensions',
  'Tests read plain xyz files, or fill trajectories in memory in one way.',
  ['correlation.py', 'helpers.py', 'partial.py', 'filter.py', 'gr.py', 'fourierspace.py', 'linkedcells.py'],
  [('Correlation.__init__', 'correlation.py'), ('Correlation._setup_arrays', 'correlation.py'), ('setup_t_grid', 'helpers.py'),
   ('adjust_skip', 'helpers.py')],
  ['(grid, value)', 'trajectory in memory']),
]

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as fh:
        for p in ALL:
            fh.write(json.dumps(p) + '\n')
    print(len(ALL))
