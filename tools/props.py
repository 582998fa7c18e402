"""the properties (source of properties.jsonl and MANIFEST.json)"""
G = 'python/triqs/gf/'
U = 'python/triqs/utility/'
ANY = 'No test of this module can run in this build (the compiled extension modules are absent), and a test samples a handful of values; the statement is about every operand, shape and call order.'

PROPS = [
    dict(id='C29', title='A block Green\'s function acts block by block',
         statement='Every operation on a block Green\'s function (construction, indexing by name or position, iteration, assignment, copy, arithmetic, inversion, transposition, storage) is exactly the corresponding operation applied to each block under its own name, in the order of the blocks. '
                   'Arithmetic between two block functions pairs blocks by name, sequences are paired by position after checking equal numbers of blocks, in-place operations modify exactly the left operand, and binary operations leave both operands unchanged. '
                   'Ill-formed arguments (unknown name, repeated names, wrong number of blocks) are refused and never silently ignored.',
         q='all numbers and names of blocks, all operand kinds, all call orders', why=ANY, files=[G + 'block_gf.py'],
         mech=[('block dispatch', 'BlockGf.__iadd__, __getitem__, __setitem__, map_block'), ('construction', 'BlockGf.__init__')]),
    dict(id='C30', title='A two-index block Green\'s function acts on every pair of blocks',
         statement='A two-index block Green\'s function gives access to each of its rows times columns of blocks under the pair of names it was built with; indexing, iteration, assignment, copying and pickling visit each pair exactly once and keep names, order and content. '
                   'Unknown names and shapes that do not match are refused with an error.',
         q='all numbers of rows, columns, names and operands', why=ANY, files=[G + 'block2_gf.py'],
         mech=[('pair indexing', 'Block2Gf.__getitem__, __setitem__'), ('pickling', 'Block2Gf.__reduce__')]),
    dict(id='C31', title='Green\'s function arithmetic acts on the data of the right operand',
         statement='Sums, differences, products, quotients, inversions, transpositions, conjugations and slices of a Green\'s function produce the function whose data is that operation applied to the operands\' data at every mesh point, with the mesh and target shape of the operands. '
                   'Out-of-place operations leave their operands unchanged, in-place operations change only the left operand, and scalars added to matrix-valued functions act on the diagonal only. '
                   'Operands on different meshes or with incompatible target shapes are refused.',
         q='all meshes, target shapes, ranks, operand kinds', why=ANY, files=[G + 'gf.py'],
         mech=[('arithmetic', 'Gf.__iadd__, __imul__, __matmul__, inverse, transpose'), ('slicing', 'Gf.__getitem__, __setitem__'), ('copying', 'Gf.copy, copy_from, __lshift__')]),
    dict(id='C33', title='Initialisers and lazy expressions denote the formula they are written as',
         statement='Assigning an expression built from descriptors (iOmega_n, Omega, SemiCircular, Wilson, Flat, Fourier, inverse, ...) to a Green\'s function stores at every mesh point the value of that expression evaluated with the documented formula of each descriptor, with scalars acting as multiples of the unit matrix. '
                   'Building an expression never changes its sub-expressions, evaluation applies operators in the written order and with the written operands on the written side. An initialiser can be applied any number of times.',
         q='all expression trees, meshes and parameters', why=ANY, files=[G + 'lazy_expressions.py', G + 'descriptor_base.py', G + 'descriptors.py'],
         mech=[('expression trees', 'LazyExpr, LazyExprTerminal, transform, eval_expr'), ('formulas', 'SemiCircular.__call__, Wilson.__call__, Flat.__call__')]),
    dict(id='C34', title='Matsubara and mesh point arithmetic is exact',
         statement='Adding, subtracting and negating Matsubara frequencies adds, subtracts and negates their integer indices and combines the particle statistics modulo two; every other arithmetic uses the complex value i(2n+1)pi/beta or i 2n pi/beta of the point. '
                   'A mesh point behaves in arithmetic as its value, and a product mesh enumerates, indexes and compares component by component.',
         q='all indices, temperatures, statistics and operand kinds', why=ANY, files=[G + 'matsubara_freq.py', G + 'mesh_point.py', G + 'mesh_product.py'],
         mech=[('frequency algebra', 'MatsubaraFreq.__add__, __sub__, __neg__'), ('product mesh', 'MeshProduct.__getitem__, to_data_index')]),
    dict(id='C38', title='Bracketing and bisection return a point only when it meets the precision',
         statement='The root search brackets the target starting from the given point with steps of the given size, then refines inside the bracket, and returns a point and its function value only when the value is within the requested precision of the target. '
                   'Otherwise, including when the number of steps is exhausted, it reports failure; the number of steps never exceeds the given limit, whatever the verbosity.',
         q='all monotonic functions, targets, precisions and step limits', why='Tests use two or three smooth functions; the statement is about the loop conditions and the assignments of the bracket on every path.', files=[U + 'dichotomy.py', U + 'bound_and_bisect.py'],
         mech=[('bracket', 'dichotomy, determine_bounds'), ('bisection', 'dichotomy, bound_and_bisect')]),
    dict(id='C48', title='Green\'s function tools map over blocks and keep mesh and data consistent',
         statement='The helpers on Green\'s functions (inverse, conjugate, transpose, real and imaginary part, delta, Dyson\'s equation, bath discretisation, block mapping) treat a block function block by block and compute their documented formula from the data of their arguments. '
                   'They return new objects unless documented otherwise and leave their arguments unchanged.',
         q='all Green\'s functions, block structures, options', why=ANY, files=[G + 'tools.py', G + 'map_block.py'],
         mech=[('block mapping', 'map_block'), ('formulas', 'dyson, delta, discretize_bath')]),
]

T = 'c++/triqs/'
CPP = 'The statement quantifies over every input and every order of calls; the tests of this part need libraries that are absent here or sample a few values of a few instantiations.'
ANYT = ' and every template instantiation'

PROPS += [
    dict(id='C01', title='A buffered function delivers the values of its generator in order',
         statement='Successive calls of a buffered function return exactly the successive values of the generating function, each once and in order, whatever the buffer size. '
                   'The generator is called only to fill the buffer, and a default constructed object throws when called.',
         q='all generators, buffer sizes and numbers of calls', why=CPP, files=[T + 'utility/buffered_function.hpp'], mech=[('refill', 'buffered_function::refill, operator()')], over=['inputs', 'histories']),
    dict(id='C02', title='The random generator is reproducible, uniform in range and documented',
         statement='For a given name and seed the random generator produces one fixed sequence: the Mersenne twister recurrence, its seeding and the conversions to floating point are exactly the documented ones, and real numbers lie in [0,1). '
                   'Integer draws lie in the requested half-open range, and unknown generator names are refused.',
         q='all names, seeds, ranges and numbers of draws', why=CPP, files=[T + 'mc_tools/MersenneRNG.cpp', T + 'mc_tools/MersenneRNG.hpp', T + 'mc_tools/random_generator.cpp', T + 'mc_tools/random_generator.hpp'],
         mech=[('twister', 'RandMT::randomMT, reloadMT, seedMT'), ('range draws', 'random_generator::operator()')], over=['inputs', 'histories']),
    dict(id='C03', title='A scope guard runs its action exactly once unless dismissed',
         statement='The action of a scope guard runs exactly once when the guard that owns it is destroyed and not dismissed, and never otherwise. '
                   'Moving a guard transfers the obligation: the moved-from guard never runs the action.',
         q='all sequences of construction, move, dismiss and destruction', why=CPP, files=[T + 'utility/scope_guard.hpp'], mech=[('ownership', 'scope_guard constructors, destructor, dismiss')], over=['histories']),
    dict(id='C04', title='Received signals are recorded until popped or stopped',
         statement='After start, every reception of a handled signal is recorded; queries report exactly whether a recorded signal remains and which came last, and popping removes the last one only. '
                   'Starting again while started installs nothing, and stopping empties the record and allows a later start to install the handlers again.',
         q='all interleavings of start, signal, query, pop and stop', why=CPP, files=[T + 'utility/signal_handler.cpp', T + 'utility/signal_handler.hpp'], mech=[('record', 'signal_handler::start, received, last, pop, stop')], over=['histories']),
    dict(id='C05', title='The clock callback stops exactly after the given duration',
         statement='The callback built from a positive number of seconds says stop exactly when more than that time has passed since it was built; built from zero or a negative number it never says stop. '
                   'Building it starts the recording of signals.',
         q='all durations and call times', why=CPP, files=[T + 'utility/callbacks.cpp', T + 'utility/callbacks.hpp'], mech=[('deadline', 'clock_callback')], over=['inputs', 'schedules']),
    dict(id='C06', title='A timer measures the accumulated time between start and stop',
         statement='While starts and stops alternate, the value of a timer is the sum in seconds of all intervals between a start and the stop that follows, plus the interval since the last start when it is running. '
                   'Reading the value changes nothing.',
         q='all sequences of start, stop and queries', why=CPP, files=[T + 'utility/timer.hpp'], mech=[('accumulation', 'timer::start, stop, operator double')], over=['histories', 'schedules']),
    dict(id='C07', title='A report stream prints exactly up to its verbosity level',
         statement='A report stream writes everything sent to it, values and manipulators alike, exactly when its level is positive, and writes nothing otherwise. '
                   'Asking a stream for level n gives a stream on the same target which is silent exactly when the verbosity is smaller than n, and leaves the original unchanged.',
         q='all levels, messages and sequences of calls', why=CPP, files=[T + 'utility/report_stream.hpp'], mech=[('levels', 'report_stream::operator<<, operator()')], over=['inputs', 'histories']),
    dict(id='C08', title='Generic number operations and call signatures are exact',
         statement='conj, real, imag and is_zero agree with mathematics for every arithmetic and complex type and keep the type of their argument; arity, result and argument types of a call operator are reported exactly as declared. '
                   'A real-or-complex number is real exactly when both operands of an operation are, and its value is that of the operation on the complex numbers.',
         q='all values, number types and signatures', why=CPP, files=[T + 'utility/numeric_ops.hpp', T + 'utility/function_arg_ret_type.hpp', T + 'utility/is_complex.hpp', T + 'utility/real_or_complex.hpp'],
         mech=[('numbers', 'is_zero, conj, real, imag'), ('signatures', 'function_arg_ret_type'), ('real or complex', 'real_or_complex operators')],
         tech='static analysis: type-level witnesses (static assertions that a violating header fails to compile) and trace-partitioned abstract interpretation with value numbering'),
    dict(id='C09', title='Serialising a tuple writes and reads each element once in order',
         statement='Saving a tuple writes every element exactly once in index order, and loading reads every element exactly once in the same order, so that a load after a save restores each element.',
         q='all tuples and archives', why=CPP, files=[T + 'utility/tuple_serialize.hpp'], mech=[('order', 'serialize, save, load')]),
    dict(id='C10', title='Legendre generator and transformation follow the recursion',
         statement='The generator returns P_0(x), P_1(x), P_2(x), ... by the three-term recursion from the point it was last reset to, and the Legendre to Matsubara matrix element is the documented phase times spherical Bessel function, with its value at zero frequency.',
         q='all points, orders and frequencies', why=CPP, files=[T + 'utility/legendre.cpp', T + 'utility/legendre.hpp'], mech=[('recursion', 'legendre_generator::next, reset'), ('matrix element', 'legendre_T')], over=['inputs', 'histories']),
    dict(id='C11', title='The space partition merges exactly the connected subspaces',
         statement='The partition returned is the finest one for which the Hamiltonian, and after merging every given operator, maps each subspace into a single subspace; indices of subspaces are consecutive and each basis state belongs to exactly one of them. '
                   'Every matrix element found larger in modulus than the threshold is recorded, and no other.',
         q='all states, operators and thresholds', why=CPP, files=[T + 'hilbert_space/space_partition.hpp'], mech=[('union', 'space_partition constructor, merge_subspaces, find_mappings'), ('numbering', '_update_index')]),
    dict(id='C12', title='Type names, variants and stack traces report what they are given',
         statement='The name of a type is the demangled name with the documented abbreviations applied, visiting a variant calls the functor on exactly the active alternative, and a stack trace lists each frame once with demangled symbols. '
                   'Conversions between a variant and one of its types never change the value.',
         q='all types, variants and frames', why=CPP, files=[T + 'utility/typeid_name.cpp', T + 'utility/typeid_name.hpp', T + 'utility/variant_extensions.hpp', T + 'utility/stack_trace.cpp', T + 'utility/stack_trace.hpp'],
         mech=[('demangling', 'demangle, typeid_name'), ('visitation', 'visit, apply_visitor')]),
    dict(id='C13', title='The Monte Carlo loop performs every requested cycle and reports its end',
         statement='A run performs cycles of the configured length until the requested number is done, the stop callback says stop or a signal arrives; in each cycle it attempts exactly that many moves, measures exactly when accumulation is on, and the returned status says which of these ended it. '
                   'The sign is updated by every accepted move only, and collecting results reduces every measure once.',
         q='all move sets, measures, seeds, cycle counts and interruptions', why=CPP, files=[T + 'mc_tools/mc_generic.hpp'], mech=[('loop', 'mc_generic::run, warmup, accumulate'), ('collection', 'mc_generic::collect_results')], over=['inputs', 'histories', 'schedules']),
    dict(id='C14', title='Every measure is accumulated once per measurement and collected once',
         statement='Accumulating calls each registered measure once with the current sign, counts one measurement, and charges the time to that measure; auxiliary measures run before the measures depend on them. '
                   'Names are unique, removal affects the named measure only, and collecting, reporting, storage and copies cover exactly the registered measures.',
         q='all sets of measures and call sequences', why=CPP, files=[T + 'mc_tools/mc_measure_set.hpp', T + 'mc_tools/mc_measure_aux_set.hpp'], mech=[('dispatch', 'measure_set::accumulate, collect_results'), ('names', 'measure_set::insert, remove')], over=['inputs', 'histories']),
    dict(id='C16', title='Moves are proposed with their weights and accepted by Metropolis',
         statement='Each attempt picks one move with probability proportional to its weight, and the move is accepted with probability min(1, |ratio|), its accept or reject being called exactly once; the acceptance rates are the accepted over the proposed attempts. '
                   'A ratio that is not finite is refused, the sign of the configuration is multiplied by the sign of the ratio and of the accept, and nested sets follow the same rule.',
         q='all weights, ratios and random numbers', why=CPP, files=[T + 'mc_tools/mc_move_set.hpp'], mech=[('choice', 'move_set::attempt'), ('acceptance', 'move_set::accept, reject'), ('rates', 'collect_statistics')], over=['inputs', 'histories']),
    dict(id='C18', title='det_manip keeps inverse, determinant and permutations of its matrix',
         statement='After every sequence of try, complete and reject the stored inverse is the inverse of the matrix of the function on the current arguments up to the stored permutations and its determinant is the stored one; try returns the ratio of determinants and changes nothing visible, reject restores the state exactly. '
                   'Positions out of range are refused, storage and copies preserve everything including thresholds and capacity.',
         q='all sequences of operations, sizes and arguments', why=CPP, files=[T + 'det_manip/det_manip.hpp'], mech=[('insert and remove', 'try_insert, complete_insert, try_remove, complete_remove'), ('change and refill', 'try_change_col_row, try_refill, regenerate')], over=['inputs', 'histories']),
    dict(id='C20', title='Fock states, Hilbert spaces and operators on them are consistent',
         statement='Operator indices, basis states and their positions are in one-to-one correspondence for every fundamental operator set and (sub) Hilbert space; an operator applied to a state gives the amplitude of every basis state with the fermionic sign of the ordering, on any number of orbitals up to 64. '
                   'States are vectors: sums, products and scalar products act on amplitudes, and absent amplitudes are zero.',
         q='all operator sets, spaces, states and operators', why=CPP, files=[T + 'hilbert_space/fundamental_operator_set.hpp', T + 'hilbert_space/fundamental_operator_set.cpp', T + 'hilbert_space/hilbert_space.hpp', T + 'hilbert_space/imperative_operator.hpp', T + 'hilbert_space/state.hpp'],
         mech=[('signs', 'imperative_operator::apply, parity_number_of_bits'), ('indices', 'fundamental_operator_set, sub_hilbert_space')]),
    dict(id='C21', title='Many-body operators form the algebra of fermions in normal order',
         statement='Sums, differences, products, scalar multiples and conjugation of many-body operators equal those of the canonical fermionic algebra, always stored in normal order with the sign of the reordering and without zero or repeated terms. '
                   'In-place operations are correct when both operands are the same object, and writing then reading an operator restores it.',
         q='all operators, indices and coefficients', why=CPP, files=[T + 'operators/many_body_operator.hpp', T + 'operators/many_body_operator.cpp'], mech=[('normal order', 'many_body_operator_generic::normalize_and_insert'), ('arithmetic', 'operator+=, -=, *=, dagger'), ('storage', 'h5_write, h5_read')]),
    dict(id='C22', title='Matrices extracted from operators contain every term exactly once',
         statement='The quadratic and quartic coefficient maps and matrices extracted from an operator contain each monomial of the operator exactly once with its coefficient and documented symmetrisation, and an operator with any other term is refused unless told otherwise.',
         q='all operators and index structures', why=CPP, files=[T + 'operators/util/extractors.hpp'], mech=[('extraction', 'extract_h_dict, extract_U_dict4, dict_to_matrix, block_matrix_from_op')]),
    dict(id='C23', title='A histogram counts every point once, in its bin or as lost',
         statement='Each point added to a histogram increases exactly one bin, the one whose interval contains it, or the number of lost points when it is outside the range or not a number; sums, probability densities and cumulative distributions are the documented functions of these counts. '
                   'Sums of histograms need equal ranges, and reduction, broadcast and storage preserve all counts.',
         q='all points, ranges, bin numbers', why=CPP, files=[T + 'stat/histograms.hpp', T + 'stat/histograms.cpp'], mech=[('counting', 'histogram::operator<<'), ('distributions', 'pdf, cdf')]),
    dict(id='C24', title='Accumulators keep every sample exactly once in their bins',
         statement='Every sample added to an accumulator enters the logarithmic binning and the linear binning exactly once; bins hold averages over consecutive samples of the documented capacity, and compression merges neighbouring bins without losing samples. '
                   'Errors and autocorrelation times are the documented functions of these bins, and an accumulator read back continues as the one written.',
         q='all sample sequences, capacities and numbers of bins', why=CPP, files=[T + 'stat/accumulator.hpp'], mech=[('log bins', 'details::log_binning::operator<<, log_bin_errors'), ('linear bins', 'details::lin_binning::operator<<, compress')], over=['inputs', 'histories']),
    dict(id='C25', title='Mean, error and jackknife estimates follow their formulas on every node',
         statement='mean, mean_and_err and the jackknife return the documented estimators of all samples, and the MPI versions return on every node the value for the samples of all nodes together. '
                   'Series of different lengths are refused.',
         q='all samples, functions and distributions over nodes', why=CPP, files=[T + 'stat/jackknife.hpp', T + 'stat/mean_error.hpp', T + 'stat/make_real.hpp'], mech=[('jackknife', 'jackknife_impl, jackknife_mpi'), ('mean', 'mean, mean_and_err')], over=['inputs', 'schedules']),
    dict(id='C26', title='Mesh points, indices and values correspond one to one',
         statement='Each linear, frequency, time, Legendre and discrete mesh maps its indices one to one onto its data range and its points; the value of a point is the documented function of its index, out-of-range indices are refused, and meshes compare equal exactly when all parameters do. '
                   'Evaluation uses the closest or interpolating points with weights that sum to one, and storage restores the mesh.',
         q='all meshes, indices and evaluation points', why=CPP, files=[T + 'mesh/' + x for x in ('imfreq.hpp', 'imtime.hpp', 'refreq.hpp', 'retime.hpp', 'legendre.hpp', 'discrete.hpp', 'bases/linear.hpp', 'utils.hpp', 'evaluate.hpp')],
         mech=[('indices', 'to_data_index, is_index_valid, to_value'), ('evaluation', 'evaluate, get_interpolation_data')]),
    dict(id='C27', title='Lattice and product meshes wrap and combine indices consistently',
         statement='Brillouin zone and cyclic lattice meshes reduce every index modulo their dimensions to one data index, convert between index, point and value by the reciprocal or lattice vectors, and momentum expressions combine values linearly. '
                   'A product mesh applies every operation to each component mesh in order.',
         q='all lattices, dimensions and indices', why=CPP, files=[T + 'mesh/' + x for x in ('brzone.hpp', 'cyclat.hpp', 'prod.hpp', 'k_expr.hpp')], mech=[('wrapping', 'brzone::index_modulo, cyclat::index_modulo'), ('product', 'prod::to_data_index')]),
    dict(id='C28', title='C++ Matsubara frequencies combine indices and statistics',
         statement='Sums and differences of Matsubara frequencies add and subtract indices with the statistics combined modulo two, and products, quotients and conversions are those of the complex value i(2n+1)pi/beta or i 2n pi/beta.',
         q='all indices, temperatures, statistics', why=CPP, files=[T + 'mesh/domains/matsubara.hpp'], mech=[('algebra', 'operator+, operator-, operator*, operator/')]),
    dict(id='C49', title='The tail fit solves the documented least squares problem',
         statement='The tail fitter uses exactly the mesh points in its window, subtracts the known moments, solves the weighted least squares problem for the remaining ones and undoes the scaling of each order; a window without points or a badly conditioned problem is refused. '
                   'Settings survive copies, and cached solvers are used only for the settings they were built with.',
         q='all data, windows, orders and known moments', why=CPP, files=[T + 'mesh/tail_fitter.hpp'], mech=[('window', 'tail_fitter::setup'), ('fit', 'tail_fitter::fit, fit_hermitian')]),
    dict(id='C50', title='Bravais lattices and Brillouin zones convert coordinates consistently',
         statement='Conversion between lattice and real coordinates, and between reciprocal units and momenta, multiplies by the unit vectors or reciprocal vectors of the lattice; lattices of one or two dimensions are completed to three, and storage restores them. '
                   'The grid generator visits each point of the grid exactly once.',
         q='all unit cells, dimensions and coordinates', why=CPP, files=[T + 'lattice/bravais_lattice.hpp', T + 'lattice/bravais_lattice.cpp', T + 'lattice/brillouin_zone.hpp', T + 'lattice/brillouin_zone.cpp', T + 'lattice/grid_generator.hpp'],
         mech=[('coordinates', 'bravais_lattice::lattice_to_real_coordinates, brillouin_zone'), ('grid', 'grid_generator::increment')]),
    dict(id='C51', title='The tight-binding Hamiltonian is the Fourier sum of its hoppings',
         statement='The Hamiltonian at a momentum is the sum over displacements of the overlap matrix times the phase exp(2 pi i k.R), its dispersion is its eigenvalues, and densities of states, energies on paths and grids use exactly the requested points. '
                   'Shapes of displacements and overlaps that do not fit the lattice are refused.',
         q='all lattices, hoppings and momenta', why=CPP, files=[T + 'lattice/tight_binding.hpp', T + 'lattice/tight_binding.cpp'], mech=[('Fourier sum', 'tight_binding::fourier'), ('spectra', 'dispersion, dos, dos_patch, energies_on_bz_grid')]),
    dict(id='C52', title='Pade approximants, time points and Kronecker deltas follow their formulas',
         statement='The Pade approximant interpolates its input points through the continued fraction recursion and is evaluated by the documented recurrence; imaginary time points on the grid are ordered, compared and combined exactly in integer arithmetic modulo beta. '
                   'The Kronecker delta is one exactly for equal arguments.',
         q='all points, values and grid positions', why=CPP, files=[T + 'utility/pade_approximants.hpp', T + 'utility/time_pt.hpp', T + 'utility/kronecker.hpp'], mech=[('continued fraction', 'pade_approximant constructor, operator()'), ('time points', 'time_pt operators')]),
    dict(id='C53', title='Exceptions, dressed iterators and tuple tools preserve their contents',
         statement='An exception carries every text streamed into it with its trace, tuple tools apply the function to each element exactly once in the documented order, dressed iterators and lazy brackets forward to the underlying object without copying or skipping elements.',
         q='all messages, tuples and ranges', why=CPP, files=[T + 'utility/exceptions.hpp', T + 'utility/dressed_iterator.hpp', T + 'utility/lazy_bracket.hpp', T + 'utility/tuple_tools.hpp'], mech=[('messages', 'triqs::exception'), ('tuples', 'tuple::for_each, fold, apply')]),
    dict(id='C54', title='Exact diagonalisation of an atomic problem keeps its invariants',
         statement='The diagonalised atomic problem has each basis state in exactly one subspace, its eigenvalues sorted and measured from the ground state, its creation and annihilation matrices expressed in the eigenbasis with their connection table; partition functions, averages, density matrices and Green\'s functions are the documented sums over this spectrum.',
         q='all Hamiltonians, partitions and temperatures', why=CPP, files=[T + 'atom_diag/atom_diag.hpp', T + 'atom_diag/functions.hpp', T + 'atom_diag/gf.hpp', T + 'atom_diag/impl/atom_diag.cpp', T + 'atom_diag/impl/functions.cpp', T + 'atom_diag/impl/gf.cpp', T + 'atom_diag/impl/worker.cpp', T + 'atom_diag/impl/worker.hpp'],
         mech=[('partition', 'atom_diag_worker::autopartition, complete'), ('observables', 'partition_function, trace_rho_op, atomic_g_tau')]),
    dict(id='C55', title='Symmetry groups of Green\'s functions give consistent classes',
         statement='The symmetry classes partition the data of the Green\'s function, each element related to the representative by the product of the symmetry operations on the path; initialising evaluates the initialiser once per class, and symmetrising averages each class. '
                   'Indices leaving the mesh are excluded.',
         q='all symmetry generators, meshes and data', why=CPP, files=[T + 'gfs/gf_sym_grp.hpp'], mech=[('classes', 'sym_grp constructor, to_data_symmetry'), ('use', 'init, symmetrize')]),
    dict(id='C56', title='C++ Green\'s functions keep mesh and data consistent',
         statement='Construction, copy, assignment, views, slicing, evaluation and arithmetic of Green\'s functions keep the data array shaped as mesh times target, read and write the element of the mesh point they are given, and combine only functions on equal meshes. '
                   'Expression templates denote the arithmetic they are written as, and storage and MPI operations treat mesh and data together.',
         q='all meshes, targets and operations' + ANYT, why=CPP, files=[T + 'gfs/gf/' + x for x in ('_gf_view_common.hpp', 'auto_assign.hpp', 'defs.hpp', 'flatten.hpp', 'gf.hpp', 'gf_const_view.hpp', 'gf_expr.hpp', 'gf_view.hpp', 'targets.hpp')] + [T + 'gfs/' + x for x in ('evaluator.hpp', 'make_gf.hpp', 'h5.hpp')],
         mech=[('containers', 'gf, gf_view, gf_const_view'), ('arithmetic', 'gf_expr operators')]),
    dict(id='C57', title='C++ block Green\'s functions act block by block under their names',
         statement='Block Green\'s functions keep one name per block in order, every operation (mapping, arithmetic, assignment, slicing, reduction, storage) applies to each block exactly once with its counterpart in the other operand, and iteration visits the blocks in order for one and two block indices. '
                   'Different numbers of blocks or unknown names are refused.',
         q='all block structures and operations' + ANYT, why=CPP, files=[T + 'gfs/block/' + x for x in ('_block_gf_view_common.hpp', 'auto_assign.hpp', 'block_gf.hpp', 'block_gf_view.hpp', 'expr.hpp', 'factories.hpp', 'functions.hpp', 'gf_struct.hpp', 'map.hpp', 'mapped_functions.hxx', 'mpi.hpp')],
         mech=[('containers', 'block_gf, block_gf_view'), ('mapping', 'map_block_gf')]),
    dict(id='C58', title='Transforms of Green\'s functions implement the documented integrals',
         statement='Direct and inverse Fourier transforms between times, frequencies and lattices, the Legendre transform and the Pade continuation compute the documented sums with the tail treated analytically, the sign and normalisation of the convention and the documented checks of mesh compatibility. '
                   'Transforming a target or one mesh of a product transforms each component independently.',
         q='all data, meshes and moments', why=CPP, files=[T + 'gfs/transform/' + x for x in ('fourier.hpp', 'fourier_common.cpp', 'fourier_lattice.cpp', 'fourier_matsubara.cpp', 'fourier_real.cpp', 'legendre_matsubara.hpp', 'pade.cpp', 'pade.hpp', 'partial_transform.hpp')],
         mech=[('Fourier', '_fourier_impl, _fourier_base'), ('Legendre and Pade', 'legendre_matsubara_direct, pade')]),
    dict(id='C59', title='Functions of Green\'s functions compute their documented formula',
         statement='Densities, tail fits, moments, inversion, conjugation, transposition, reality and hermiticity tests, rebinning and conversions between representations of a Green\'s function compute the documented formula at every mesh point and leave their arguments unchanged.',
         q='all Green\'s functions' + ANYT, why=CPP, files=[T + 'gfs/functions/' + x for x in ('density.hpp', 'density.cpp', 'dlr.hpp', 'functions2.hpp', 'imfreq.hpp', 'imtime.hpp', 'imtime.cpp', 'legendre.hpp', 'legendre.cpp')],
         mech=[('density', 'density'), ('maps', 'functions2.hpp, imfreq.hpp')]),
    dict(id='C60', title='Discrete Lehmann meshes share one set of poles consistently',
         statement='The three discrete Lehmann meshes built from each other share temperature, statistics, cutoff and poles; index, data index and value of a point correspond one to one, evaluation sums the documented kernel over all poles, and storage restores the mesh.',
         q='all parameters and points', why=CPP, files=[T + 'mesh/' + x for x in ('dlr.hpp', 'dlr_imfreq.hpp', 'dlr_imtime.hpp', 'adjoint.hpp', 'concepts.hpp')], mech=[('points', 'to_data_index, to_value'), ('evaluation', 'evaluate')]),
    dict(id='C36', title='Serial and parallel communication layers offer the same operations',
         statement='Code written against the communication module behaves on one process without MPI exactly as on one process with it: broadcast, reduction, send, receive, ranks, slices and barriers have the same names and parameters, and on one process return their argument. '
                   'With MPI each call passes exactly its arguments to the communicator, slices of a list over the nodes are contiguous, disjoint and cover it, and reductions use the sum unless told otherwise.',
         q='all values, numbers of nodes and call orders', why='A serial run takes one of the two modules and one number of nodes; the tests that use more need MPI.', files=[U + 'mpi_nompi.py', U + 'mpi_mpi4py.py'],
         mech=[('serial fallback', 'mpi_nompi.bcast, all_reduce, slice_array'), ('slices', 'mpi_mpi4py.slice_inf, slice_sup, slice_array')], over=['inputs', 'schedules']),
    dict(id='C37', title='Redirected output is captured completely and the stream restored',
         statement='While output is redirected everything written to the stream goes to the redirection and nothing to the original; on leaving, also through an exception, the original file descriptor or object is back in place and the temporary ones are closed. '
                   'Nested redirections restore in reverse order.',
         q='all outputs and ways of leaving', why='Tests capture one print; the statement is about file descriptors on every path, including exceptions.', files=[U + 'capture_stdout.py', U + 'redirect.py'],
         mech=[('descriptors', 'start_redirect, stop_redirect'), ('context manager', 'CaptureStdout')], over=['inputs', 'crash-points']),
    dict(id='C39', title='Comparison tools report every difference above the tolerance',
         statement='Comparing two archives or two objects reports a difference whenever any group, key, shape, type or value differs by more than the given tolerance, and reports none when all agree within it. '
                   'Green\'s functions are compared by mesh, shape and data, block functions block by block, arrays element by element.',
         q='all archives, objects and tolerances', why='Tests compare a few equal objects; a comparison that reports too little passes all of them.', files=[U + 'h5diff.py', U + 'comparison_tests.py'],
         mech=[('archives', 'h5diff.compare'), ('assertions', 'assert_gfs_are_close, assert_arrays_are_close')]),
    dict(id='C40', title='A superlattice has the sites and hoppings of its lattice',
         statement='The superlattice repeats the given cluster: each site of the superlattice cell is one site of the lattice, every hopping of the lattice appears exactly once per site between the superlattice cells containing its ends, and index maps between both are inverse to each other. '
                   'Folding a function onto the superlattice and changing coordinates use these maps, and pickling restores the object.',
         q='all lattices, unit vectors and clusters', why=ANY, files=['python/triqs/lattice/super_lattice.py'], mech=[('hoppings', 'TBSuperLattice.__init__'), ('index maps', 'cluster_sites, unpack_index_site_orbital')]),
    dict(id='C41', title='The lattice sum uses every k-point with its weight',
         statement='The local Green\'s function is the sum over all points of the grid, each with its weight, of the inverse of frequency plus field minus hopping minus self energy, reduced over all nodes; the result has the mesh, block names and indices asked for. '
                   'Constant and momentum dependent self energies are recognised by their arguments, and a sum taken from a lattice uses the points, weights and hopping of that lattice.',
         q='all self energies, grids, fields and numbers of nodes', why=ANY, files=['python/triqs/sumk/sumk_discrete.py', 'python/triqs/sumk/sumk_discrete_from_lattice.py'],
         mech=[('summation', 'SumkDiscrete.__call__'), ('grids', 'SumkDiscreteFromLattice.resize_arrays')], over=['inputs', 'schedules']),
    dict(id='C42', title='Lattice utilities convert between hoppings, k-space and paths faithfully',
         statement='Tight-binding objects built from hoppings, from Wannier90 files or from k-space functions hold exactly the given matrices at the given displacements; momentum paths and grids contain the requested points with endpoints, and lattice point arithmetic acts on coordinates. '
                   'Inputs whose dimensions do not fit are refused.',
         q='all lattices, hoppings, files and paths', why=ANY, files=['python/triqs/lattice/' + x + '.py' for x in ('tight_binding', 'utils', 'bz_patch', 'point')],
         mech=[('construction', 'TBLattice.__init__, TB_from_wannier90'), ('paths', 'k_space_path, trace_bands')]),
    dict(id='C43', title='Coulomb matrices follow the Slater and Kanamori parametrisations',
         statement='The four-index Slater matrix is the sum over multipoles of the radial integrals times the angular matrix elements of Wigner symbols, the Kanamori matrices have the documented density-density, exchange and pair-hopping elements, and conversions between parameters, bases, two-index and subspace forms are the documented linear maps. '
                   'Missing or inconsistent parameters are refused.',
         q='all angular momenta, parameters and bases', why='Tests compare a few matrices at l=2; the statement is about every index, every l and every parameter.', files=['python/triqs/operators/util/U_matrix.py'],
         mech=[('Slater', 'U_matrix_slater, angular_matrix_element, three_j_symbol'), ('Kanamori', 'U_matrix_kanamori'), ('bases', 'spherical_to_cubic, transform_U_matrix')]),
    dict(id='C44', title='Interaction Hamiltonians contain exactly the documented terms',
         statement='Each constructor of a local Hamiltonian (Slater, Kanamori, density-density) adds every documented term once with its coefficient, operator order and spin condition, uses the given naming of blocks and map of operators, and the printed dump lists the same terms and coefficients. '
                   'Block structures list the orbitals of each spin in the requested order.',
         q='all orbital numbers, interaction matrices and naming maps', why=ANY, files=['python/triqs/operators/util/hamiltonians.py', 'python/triqs/operators/util/op_struct.py'],
         mech=[('Hamiltonians', 'h_int_slater, h_int_kanamori, h_int_density'), ('block structure', 'set_operator_structure, get_mkind')]),
    dict(id='C45', title='Observables are the documented sums of operators',
         statement='The operators returned for particle number, spin components, spin ladder, orbital angular momentum, total angular momentum and their squares are the documented bilinear and quartic sums over all orbitals and spins, in the given basis and naming.',
         q='all orbital numbers, bases and naming maps', why=ANY, files=['python/triqs/operators/util/observables.py'], mech=[('spin', 'S_op, S2_op'), ('orbital', 'L_op, L2_op, LS_op')]),
    dict(id='C46', title='Densities of states and Hilbert transforms integrate the given function',
         statement='A density of states evaluates to the function it was built from inside its range and to zero outside, and its Hilbert transform is the weighted sum over its energies of the resolvent with chemical potential, broadening, self energy and field, on the grid asked for. '
                   'Construction refuses unequal shapes, and pickling and copying restore the object.',
         q='all densities, self energies and fields', why=ANY, files=['python/triqs/dos/dos.py', 'python/triqs/dos/hilbert_transform.py'],
         mech=[('density', 'DOS.density, DOSFromFunction'), ('transform', 'HilbertTransform.__call__')]),
    dict(id='C47', title='Tasks are distributed over nodes once each and results kept in order',
         statement='The list of tasks is divided so that each is computed exactly once, the results are returned in the order of the tasks on every node, and the arguments are left unchanged. '
                   'MPI is initialised exactly when one of the documented environment variables is set to a non-empty value.',
         q='all task lists, timings and environments', why='One test calls the detection once; the distribution depends on the timing of the nodes.', files=[U + 'dist_on_nodes.py', U + 'mpi.py.in'],
         mech=[('distribution', 'DistributionOnNodes.run'), ('detection', 'check_for_mpi')], over=['inputs', 'schedules', 'histories']),
    dict(id='C61', title='A fit minimises the distance to the data in its window',
         statement='A fit uses exactly the data points inside the given window, minimises the difference between the data and the fitting function starting from the given parameters, and evaluates with the optimal ones.',
         q='all data, windows and functions', why=ANY, files=['python/triqs/fit/fit.py'], mech=[('fit', 'Fit.__init__, __call__')]),
    dict(id='C62', title='Plotting draws exactly the data and options it is given',
         statement='Plotting an object draws each curve of its plot protocol once with its own x and y data and label, options given by the caller override the defaults, unknown options are refused, and windows and real or imaginary parts select exactly the corresponding data.',
         q='all objects and options', why=ANY, files=['python/triqs/plot/protocol.py', 'python/triqs/plot/mpl_interface.py', 'python/triqs/stat/histogram.py'], mech=[('protocol', 'plot_protocol_apply, clip_array'), ('drawing', '_oplot_')]),
    dict(id='C63', title='Plots of Green\'s functions show the selected part of the data',
         statement='The plot description of a Green\'s function contains for every selected component one curve whose x values are the mesh values and whose y values are the selected real, imaginary or spectral part of the data, restricted to the window given, with the axis labels of the mesh; momentum plots interpolate along the given path.',
         q='all Green\'s functions, selections and options', why=ANY, files=[G + 'plot/' + x + '.py' for x in ('plot_base', 'one_var', 'select_indices', 'bz', 'bz_x_x', '_gf_X_x_X')], mech=[('one variable', 'plot_base, one_var.imfreq'), ('momentum', 'bz, bz_x_x')]),
    dict(id='C64', title='The former constructors of Green\'s functions build the same objects',
         statement='Each constructor of the former interface (Matsubara, real frequency, times, Legendre) builds the Green\'s function with the mesh, target shape, data and name its arguments describe, and refuses contradictory or superfluous arguments.',
         q='all combinations of arguments', why=ANY, files=[G + 'backwd_compat/gf_' + x + '.py' for x in ('imfreq', 'imtime', 'refreq', 'retime', 'legendre')], mech=[('constructors', 'GfImFreq, GfReFreq, GfImTime, GfReTime, GfLegendre')]),
    dict(id='C65', title='The Python bindings expose each C++ function under its own name',
         statement='The binding descriptions declare for each class its documented constructors, methods, properties and operators with the C++ member of that meaning, and each free function for every documented combination of mesh and target; calling patterns pass the arguments in order to the named C++ function.',
         q='all meshes, targets and overloads', why='The bindings are generated by a tool that is absent here; no test in this build imports them.', files=['python/triqs/' + x + '_desc.py' for x in ('gf/gf_factories', 'gf/gf_fnt', 'gf/meshes', 'gf/wrapped_aux', 'operators/util/extractors', 'operators/operators', 'lattice/lattice_tools', 'stat/histograms', 'atom_diag/atom_diag', 'random_generator/random_generator')],
         mech=[('meshes', 'make_mesh'), ('functions', 'all_calls, add_function')]),
    dict(id='C66', title='Packages export their public names from the right modules',
         statement='Importing a package gives every documented public name, bound to the object of the module that defines it, former names stay bound to their present ones, and the import registers the conversions and storage formats it is responsible for.',
         q='all names', why='Importing these packages needs compiled extension modules which are absent here.', files=['python/triqs/' + x + '__init__.py' for x in ('', 'atom_diag/', 'dos/', 'gf/', 'lattice/', 'operators/', 'operators/util/', 'plot/', 'random_generator/', 'stat/', 'sumk/', 'utility/')] + ['python/triqs/version.py.in'],
         mech=[('exports', 'package imports')]),
    dict(id='C72', title='Printed forms and plot descriptions state the data of their object',
         statement='The text, the TeX form and the list of curves made for printing or plotting a Green\'s function, block Green\'s function, mesh point, density of states, fit, histogram, lazy expression, tight-binding or superlattice object are built from the present data of that object, with the right abscissa, ordinate, label and component, and making them leaves the object unchanged.',
         q='all objects and options', why='No test of this build prints or plots these objects.', files=['python/triqs/%s.py' % f for f in ('dos/dos', 'fit/fit', 'gf/gf', 'gf/lazy_expressions', 'gf/block_gf', 'gf/block2_gf', 'gf/descriptors', 'gf/descriptor_base', 'gf/mesh_point', 'gf/matsubara_freq', 'gf/mesh_product', 'lattice/tight_binding', 'lattice/super_lattice', 'stat/histogram', 'sumk/sumk_discrete')],
         mech=[('texts', '__repr__, __str__, _repr_tex_'), ('plot descriptions', '_plot_')]),
]

PROPS.sort(key=lambda p: p['id'])

NOTAPP = {}

NUM = 'quantifies over rounded floating point results; the analysis treats numbers as a commutative ring and cannot bound an error'
PROPS += [
    dict(id='C67', title='Monte Carlo averages converge to their exact expectation values',
         statement='For an ergodic set of moves satisfying detailed balance the measured averages converge to the expectation values of the stationary distribution, with errors that the estimated error bars cover.',
         q='all move sets, seeds and run lengths', why='A test runs one model with one seed.', files=[T + 'mc_tools/mc_generic.hpp'], mech=[('sampling', 'mc_generic::run')], over=['inputs', 'histories']),
    dict(id='C68', title='Transforms there and back restore the data within the accuracy',
         statement='Transforming a Green\'s function from time to frequency and back, to Legendre coefficients or to discrete Lehmann coefficients and back, restores its values within the accuracy of the representation.',
         q='all data, meshes and moments', why='Tests transform a few functions.', files=[T + 'gfs/transform/fourier.hpp'], mech=[('Fourier', 'fourier')]),
    dict(id='C69', title='The fast updates of det_manip stay accurate over long runs',
         statement='After any number of insertions, removals and changes the determinant and inverse kept by updates differ from those computed anew by less than the error threshold.',
         q='all sequences of updates and matrices', why='Tests use random sequences of bounded length.', files=[T + 'det_manip/det_manip.hpp'], mech=[('check', 'det_manip::check_mat_inv')], over=['histories']),
    dict(id='C70', title='Collective operations are entered by all nodes without deadlock',
         statement='In every parallel run all nodes enter the same collective operations in the same order, also when one node stops early through a signal, a time limit or an exception.',
         q='all numbers of nodes, timings and failures', why='Tests run on one node here.', files=[T + 'mc_tools/mc_generic.hpp', T + 'stat/jackknife.hpp'], mech=[('node monitor', 'mc_generic::run')], over=['schedules', 'crash-points']),
    dict(id='C71', title='Archives written by one version are read by the next',
         statement='Objects written to an HDF5 archive by any former version of the library are read by the present one with the same content.',
         q='all objects and versions', why='Tests read a few stored files.', files=[T + 'gfs/h5.hpp'], mech=[('formats', 'h5_read')], over=['histories']),
]
NOTAPP.update({
    'C67': 'statistical convergence of a random process is not visible in the program text; the bookkeeping it needs (weights, acceptance, signs, measurements) is decided as C13, C14, C16',
    'C68': NUM + '; that each transform computes its documented sum is decided as C58 to C60',
    'C69': NUM + '; that each update formula, permutation and sign is the documented one is decided as C18',
    'C70': 'needs the product of several processes and their timing; nodes legitimately leave the loop at different cycles and meet in the node monitor of the absent mpi library',
    'C71': 'the formats of former versions are not in the source; agreement of the present writers and readers is part of C18 to C28 and C56',
})
PROPS.sort(key=lambda p: p['id'])
