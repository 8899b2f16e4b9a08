"""The texts of the properties (properties.jsonl and MANIFEST.json are generated from them by gen.py)."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe),
                          hook_needed=None))
    d.update(kw)
    PROPS.append(d)


TRUST = ('Static argument over the current sources: every path of the inlined flow graphs (loops summarised) is considered. '
         'Trusted: the extractor, the models of the standard library and Eigen in engine/ext.py, and that code reached '
         'only through user callbacks does not modify the object being analysed. Constructs the rule cannot decide are '
         'listed as undecided in the evidence and raise no alarm.')

P('C01', 'A model never returns results that predate its last change',
  'After any sequence of model changes (adding or clearing shapes, symmetries, leads, modifiers and generators, or setting '
  'the wave vector) and evaluations, the system, Hamiltonian and leads that the model returns are those that a freshly '
  'constructed model with the same final parameters would build (the same values; the scalar type may stay complex). A change that affects the structure discards the system, '
  'the Hamiltonian and the leads; a change that affects only energies discards at least the Hamiltonian and the lead '
  'Hamiltonians, and every accepted argument influences the next build.',
  ['histories', 'inputs'],
  'all sequences of public model mutators interleaved with evaluations, over all argument values',
  'Tests evaluate a model after one or two changes. Whether some mutator, taken on some branch after some earlier '
  'evaluation, leaves a stale cached object is a statement about all histories.',
  ['cppcore/include/Model.hpp', 'cppcore/src/Model.cpp', 'cppcore/include/leads/Leads.hpp', 'cppcore/src/leads/Leads.cpp'],
  [('clear_structure / clear_hamiltonian', 'cppcore/src/Model.cpp'), ('lazy system()/hamiltonian()/leads()', 'cppcore/src/Model.cpp')],
  [('_system, _hamiltonian, _leads', 'lazily built results', 'cppcore/include/Model.hpp')],
  ['Model::system()', 'Model::hamiltonian()', 'Model::leads()'],
  technique='interprocedural dataflow on two-call history graphs (mutator then accessor)', level_note=TRUST)

P('C02', 'Solvers and KPM never compute with data of a replaced model or matrix',
  'After the model of an exact solver or of a KPM object is replaced, every later result is computed from the new '
  'Hamiltonian: the solver solves again before it returns eigenvalues, eigenvectors, DOS or LDOS, and KPM re-derives its '
  'optimized matrix, spectrum bounds and scaling from the new Hamiltonian (fixed user-given bounds are kept). The matrix '
  'that KPM optimizes for one set of row/column indices is never reused for a different set.',
  ['histories', 'inputs'],
  'all sequences of set_model and calculation calls, over all Hamiltonians, indices and configurations',
  'Tests replace the model once, with matrices of the same type and size, or never. Staleness depends on the history of '
  'calls and on which indices the previous calculation used.',
  ['cppcore/src/solver/Solver.cpp', 'cppcore/src/KPM.cpp', 'cppcore/src/kpm/Core.cpp', 'cppcore/src/kpm/OptimizedHamiltonian.cpp',
   'cppcore/src/kpm/Bounds.cpp'],
  [('set_model resets solved flag / strategy', 'cppcore/src/solver/Solver.cpp'), ('set_hamiltonian', 'cppcore/src/kpm/Core.cpp'),
   ('optimize_for early return', 'cppcore/src/kpm/OptimizedHamiltonian.cpp')],
  [('is_solved', 'the strategy holds results of the current model', 'cppcore/include/solver/Solver.hpp'),
   ('original_idx', 'indices the optimized matrix was made for', 'cppcore/include/kpm/OptimizedHamiltonian.hpp')],
  ['BaseSolver::eigenvalues()', 'KPM::calc_*'],
  technique='derived-state dataflow (constructor vs setter) and typestate on history graphs', level_note=TRUST)

P('C03', 'A rejected configuration call leaves the object unchanged',
  'If a call that configures a lattice, an energy registry, a model, an exact solver or a KPM object (adding, registering, '
  'attaching or setting something) ends with an exception, the object is exactly as it was before the call. A later valid '
  'call or evaluation therefore behaves as if the rejected call had never been made.',
  ['inputs', 'fault_sequences', 'histories'],
  'all public configuration calls with all invalid arguments, including a new model whose evaluation fails',
  'Tests check that bad arguments throw; they do not compare the whole object before and after, for every argument and every '
  'throwing branch.',
  ['cppcore/src/Lattice.cpp', 'cppcore/src/Model.cpp', 'cppcore/src/system/Registry.cpp', 'cppcore/src/solver/Solver.cpp',
   'cppcore/src/KPM.cpp', 'cppcore/src/kpm/Core.cpp'],
  [('validation before the first member is changed', 'cppcore/src/Lattice.cpp, cppcore/src/Model.cpp, cppcore/src/system/Registry.cpp')],
  (), ['Lattice getters', 'Model getters', 'Model::system()'],
  technique='write-before-throw path search on inlined flow graphs', level_note=TRUST)

P('C04', 'A failed lazy evaluation is never taken for a finished one',
  'If building the system, the Hamiltonian, the leads, the eigenvalue solution, the spectrum bounds or the optimized KPM '
  'matrix fails with an exception (from a user callback or from the library), the partial result is not remembered as '
  'complete. The next request builds it again and either returns a complete result or fails again.',
  ['fault_sequences', 'histories'],
  'an exception at any point of any lazy evaluation, followed by any further requests',
  'The tests contain no failing user callback and no second evaluation after a failure; the property quantifies over every '
  'point at which an evaluation can fail.',
  ['cppcore/src/Model.cpp', 'cppcore/src/leads/Leads.cpp', 'cppcore/src/solver/Solver.cpp', 'cppcore/src/kpm/Bounds.cpp',
   'cppcore/src/kpm/OptimizedHamiltonian.cpp'],
  [('result stored only after the last step that can fail', 'the files above')],
  [('cached members and flags', 'tested to decide whether to build', 'the headers of the same classes')],
  ['Model::system()', 'Model::leads()', 'BaseSolver::eigenvalues()'],
  technique='store-before-failure search inside dominator regions of lazy guards', level_note=TRUST)

P('C07', 'Hamiltonians are Hermitian',
  'For every model whose onsite energies are accepted by the lattice, the model Hamiltonian (with periodic boundaries and any '
  'wave vector) and the unit-cell Hamiltonian h0 of every lead equal their own conjugate transpose: each off-diagonal element '
  'is written together with its complex conjugate at the mirrored position, phase factors are conjugated with it, and stored '
  'onsite matrices are Hermitian with a real diagonal. (Modifiers which themselves return a non-Hermitian onsite matrix are '
  'outside the promise.)',
  ['inputs'], 'all lattices (any number of orbitals), hopping energies, hopping modifiers, symmetries and wave vectors',
  'Tests compare a few matrices with stored data, nearly all of them real and single-orbital; a lost conjugate only shows with '
  'complex multi-orbital or phase-carrying elements.',
  ['cppcore/include/hamiltonian/Hamiltonian.hpp', 'cppcore/include/hamiltonian/HamiltonianModifiers.hpp',
   'cppcore/include/leads/HamiltonianPair.hpp', 'cppcore/src/leads/HamiltonianPair.cpp', 'cppcore/src/system/Registry.cpp'],
  [('build_main / build_periodic', 'cppcore/include/hamiltonian/Hamiltonian.hpp'), ('make_h0', 'cppcore/src/leads/HamiltonianPair.cpp'),
   ('onsite matrix checks', 'cppcore/src/system/Registry.cpp')],
  (), ['Hamiltonian', 'Lead::h0()'],
  technique='symbolic pairing of matrix element emissions on inlined flow graphs', level_note=TRUST)

P('C08', 'Matrix elements sit at their sites and orbitals with their own energy',
  'In the model Hamiltonian, in h0 and in h1 of every lead, the element between orbital a of site i and orbital b of site j is '
  'element (a, b) of the energy matrix of the hopping family that connects i to j (onsite: of the sublattice of i), located at '
  '(first matrix index of i) + a, (first matrix index of j) + b, where the first index of a site is the number of orbitals of '
  'all sites before it. Hoppings across a periodic boundary are added (summed, not overwritten) with the factor '
  'exp(i k.d) of the shift d of their own boundary. No nonzero element is left out.',
  ['inputs'], 'all systems: any mixture of orbital counts, complex and rectangular hopping matrices, boundaries and wave vectors',
  'Tests use square lattices of one or two orbitals; mixtures of orbital counts, generated sublattices, several boundaries '
  'with different phases and non-symmetric matrices are almost absent.',
  ['cppcore/include/hamiltonian/HamiltonianModifiers.hpp', 'cppcore/include/hamiltonian/Hamiltonian.hpp',
   'cppcore/src/system/CompressedSublattices.cpp', 'cppcore/include/leads/HamiltonianPair.hpp'],
  [('apply_to_onsite_impl / apply_to_hoppings_impl / IndexTranslator', 'cppcore/include/hamiltonian/HamiltonianModifiers.hpp'),
   ('build_periodic phase', 'cppcore/include/hamiltonian/Hamiltonian.hpp'), ('ham_index', 'cppcore/src/system/CompressedSublattices.cpp')],
  (), ['Hamiltonian', 'Lead::h0()', 'Lead::h1()'],
  technique='symbolic row/column/value terms of matrix element emissions, loop coverage, dominating guards', level_note=TRUST)

P('C09', 'Every modifier and generator is applied once, in order, to consistent data',
  'When a system or Hamiltonian is built, every site state and position modifier, site and hopping generator, onsite and hopping '
  'modifier that was added to the model is applied exactly once to all the data it concerns, in the order in which it was added '
  '(each sees the result of the previous ones). Each call gets the positions, states, energies and the name of one and the same '
  'sublattice or hopping family; a hopping modifier gets, element by element, the positions of the first and second site of the '
  'hopping, the second one moved to the neighbouring unit when the hopping crosses a periodic boundary. The values it leaves '
  'behind are what enters the Hamiltonian (of the main system and of the leads).',
  ['inputs'], 'all sequences of modifiers and generators, over all lattices, orbital counts, boundaries and system sizes',
  'Tests add one or two modifiers to tiny models; nothing checks every combination of order, kinds, orbital counts, boundaries '
  'and buffer slices.',
  ['cppcore/src/Model.cpp', 'cppcore/src/system/StructureModifiers.cpp', 'cppcore/include/hamiltonian/HamiltonianModifiers.hpp',
   'cppcore/include/system/StructureModifiers.hpp'],
  [('make_system', 'cppcore/src/Model.cpp'), ('apply(modifier, Foundation/System)', 'cppcore/src/system/StructureModifiers.cpp'),
   ('apply_to_onsite / apply_to_hoppings', 'cppcore/include/hamiltonian/HamiltonianModifiers.hpp')],
  (), ['System', 'Hamiltonian', 'Lead::h0()', 'Lead::h1()'],
  technique='symbolic arguments and loop structure of all user callbacks on inlined flow graphs', level_note=TRUST)

P('C10', 'Everything a system stores per site stays in step',
  'While a system is built, sites and hoppings are removed and added by modifiers and generators. At every moment at which a user '
  'callback can see the system, and when the system is returned, its positions, the counts of its sublattices, the site counts of '
  'its hopping blocks and those of the hopping blocks of every boundary describe the same sites in the same order: removed sites '
  'are dropped from all of them, a hopping is dropped if and only if one of its two ends is removed, the remaining hoppings are '
  'renumbered by the number of kept sites in front of each end, generated sites are added to all of them, no removal is lost, '
  'and every stored hopping refers to existing sites.',
  ['inputs', 'histories'], 'all lattices, shapes and sequences of modifiers and generators that remove or add sites and hoppings',
  'Tests use one modifier or one generator at a time, almost never with boundaries, several sublattices or removal after generation.',
  ['cppcore/src/system/System.cpp', 'cppcore/src/system/HoppingBlocks.cpp', 'cppcore/src/system/CompressedSublattices.cpp',
   'cppcore/src/system/StructureModifiers.cpp', 'cppcore/src/system/Foundation.cpp', 'cppcore/src/Model.cpp'],
  [('make_system', 'cppcore/src/Model.cpp'), ('remove_invalid / populate_system / populate_boundaries', 'cppcore/src/system/System.cpp'),
   ('HoppingBlocks::filter / add_sites / append', 'cppcore/src/system/HoppingBlocks.cpp')],
  [('is_valid', 'mask of the sites which are to be kept', 'cppcore/include/system/System.hpp')],
  ['System', 'Hamiltonian'],
  technique='typestate of the pending site mask, must-update analysis and symbolic content of the updates on the inlined flow graph of make_system',
  level_note=TRUST)

P('C11', 'Concurrent computation loses, repeats and mixes up nothing',
  'However the threads of a parallel computation are scheduled: parallel_for produces, computes and retires every job exactly once, '
  'with the value that belongs to its number, and returns only after all of them are done; the batched KPM computation starts '
  'exactly one vector per requested one, numbers vectors in the order in which they are started, stores every result under its own number '
  'or averages all of them exactly once, and returns only when all have been added. Shared data is only touched with its lock held '
  'or when no other thread exists, no wake-up is lost, a waiting thread is always woken when work arrives or the work is over, '
  'and a queue is never reported as finished while a job is still in it or can still come.',
  ['schedules'], 'all interleavings of all worker, producer and consumer threads, all job counts, batch sizes and thread counts',
  'Tests compare a few moments on whatever schedule the machine happens to produce; data races and lost wake-ups show rarely.',
  ['cppcore/include/detail/thread.hpp', 'cppcore/src/kpm/default/Compute.cpp', 'cppcore/include/kpm/Moments.hpp',
   'cppcore/src/kpm/Moments.cpp', 'cppcore/include/kpm/Starter.hpp'],
  [('Queue / parallel_for / ThreadPool', 'cppcore/include/detail/thread.hpp'),
   ('SelectAlgorithm', 'cppcore/src/kpm/default/Compute.cpp'),
   ('BatchAccumulator / BatchConcatenator', 'cppcore/src/kpm/Moments.cpp')],
  [('is_closed, num_producers', 'whether jobs can still come', 'cppcore/include/detail/thread.hpp'),
   ('count', 'number of started vectors', 'cppcore/include/kpm/Starter.hpp')],
  ['parallel_for', 'KPM'],
  technique='lockset analysis per thread body, typestate of queues and locks, and must-happen analysis of joins and notifications on the inlined flow graphs of all thread bodies',
  level_note=TRUST)

P('C05', 'Input outside its domain ends in an exception, not in a result',
  'Whatever the other arguments and the state of the object are: Lattice rejects blank and already used names, unknown sublattices, '
  'hoppings and IDs, onsite energies that are empty, not square, have a complex diagonal or are neither triangular nor Hermitian, '
  'empty hopping matrices or ones that do not fit the sublattices, a hopping from a site to itself, a hopping that exists (or '
  'whose conjugate does) and an origin moved by more than half a lattice vector; the registries check families the same way; Model rejects primitive '
  'shapes and leads with more dimensions than the lattice, leads for 1D lattices and direction 0; Primitive and Shape reject empty extents; '
  'generated hoppings must come in pairs of existing sites; KPM rejects indices outside the Hamiltonian, vectors and operators of another size, '
  'complex ones for a real Hamiltonian, empty selections, multi-orbital models where unsupported, wrong direction strings, min > max and a '
  'non-positive Lorentz lambda; a Hamiltonian with NaN or INF is never returned.',
  ['inputs'], 'all values outside each documented domain, on both sides of every limit, for every overload',
  'Tests try one invalid value of a few kinds; limits off by one, one forgotten alternative or one overload pass them.',
  ['cppcore/src/Lattice.cpp', 'cppcore/src/Model.cpp', 'cppcore/src/KPM.cpp', 'cppcore/src/system', 'cppcore/src/kpm/Core.cpp',
   'cppcore/src/kpm/Kernel.cpp', 'cppcore/include/hamiltonian/Hamiltonian.hpp'],
  [('Lattice::make_hopping_term and name checks', 'cppcore/src/Lattice.cpp'),
   ('check_onsite_energy / check_hopping_energy', 'cppcore/src/system/Registry.cpp'),
   ('Model::attach_lead, Model::add', 'cppcore/src/Model.cpp'),
   ('HoppingBlocks::append', 'cppcore/src/system/HoppingBlocks.cpp'),
   ('KPM argument checks', 'cppcore/src/KPM.cpp'),
   ('throw_if_invalid', 'cppcore/include/hamiltonian/Hamiltonian.hpp')],
  [],
  ['Lattice', 'Model', 'KPM', 'Primitive', 'Shape', 'HoppingBlocks'],
  technique='path analysis on inlined flow graphs: for representatives on each side of every limit, conditions they decide are folded and no path to a normal return may remain',
  level_note=TRUST)

P('C12', 'KPM works on the same operator: scaled, reordered, converted, sliced',
  'For every Hamiltonian, scale (a, b) and pair of target indices, the optimized matrix of KPM holds exactly the elements '
  '(v - b [i == j]) 2/a of the Hamiltonian, each at the new position of its row and column, including the diagonal elements which the '
  'Hamiltonian does not store; the new order is a permutation which every row takes part in, also those which the source cannot reach; '
  'the target indices are translated by it, and so are vectors and operators that are reordered for it; the ELLPACK form holds the same '
  'elements; and the slice used for a moment contains every row that the source can have reached by then and that can still reach the '
  'destination.',
  ['inputs'], 'all matrices (any sparsity pattern, disconnected parts, missing diagonals), scales, target indices and numbers of moments',
  'Tests compare a few small systems with one target; a matrix element at a wrong place, a missing diagonal or a slice that is too small only '
  'show for particular sparsity patterns, targets and numbers of moments.',
  ['cppcore/src/kpm/OptimizedHamiltonian.cpp', 'cppcore/include/kpm/OptimizedHamiltonian.hpp', 'cppcore/include/numeric/ellmatrix.hpp',
   'cppcore/include/numeric/sparse.hpp'],
  [('OptimizedHamiltonian::optimize_for', 'cppcore/src/kpm/OptimizedHamiltonian.cpp'),
   ('SliceMap', 'cppcore/include/kpm/OptimizedHamiltonian.hpp'), ('csr_to_ell', 'cppcore/include/numeric/ellmatrix.hpp')],
  [('reorder_map, index_queue', 'new position of each row and its inverse', 'cppcore/src/kpm/OptimizedHamiltonian.cpp'),
   ('SliceMap::data', 'slice borders', 'cppcore/include/kpm/OptimizedHamiltonian.hpp')],
  ['KPM.moments', 'KPM.calc_ldos', 'KPM.calc_greens'],
  technique='symbolic emissions of the inlined flow graph compared with the rule as rational identities; lockstep of map and queue writes by dominance; slice index proved by Fourier-Motzkin elimination',
  level_note=TRUST)

P('C13', 'KPM computes the documented expansions from its moments to the result',
  'For every Hamiltonian, parameter and thread count, each KPM calculation returns what is documented: the moments are '
  '<beta|op T_n(H)|alpha> of the scaled Hamiltonian, whichever algorithm (plain or interleaved, with or without the size optimization) and '
  'matrix format computes them; the kernel (Jackson, Lorentz or Dirichlet) is applied exactly once, with its documented coefficients; the '
  'number of moments follows from the broadening in scaled units; the spectral density, Green\'s function and Kubo-Bastin conductivity are '
  'reconstructed with the documented formulas at the given energies with the same scale (a, b) with which the Hamiltonian was scaled; random '
  'vectors have unit modulus and the result is averaged over them; conductivity uses the velocity operators of the two given directions; and '
  'after another model is set nothing of the previous one is used.',
  ['inputs'], 'all moments, energies, scales, kernels, numbers of moments, matrices and algorithm settings',
  'Tests compare stored spectra of a few small systems to within a tolerance; a formula which is wrong for complex moments, off-centre spectra, '
  'several random vectors or a rarely used algorithm setting is not seen.',
  ['cppcore/src/kpm', 'cppcore/include/kpm', 'cppcore/include/compute/kernel_polynomial.hpp', 'cppcore/src/KPM.cpp'],
  [('recurrence', 'cppcore/include/kpm/calc_moments.hpp'), ('matrix-vector kernels', 'cppcore/include/compute/kernel_polynomial.hpp'),
   ('collectors', 'cppcore/include/kpm/default/collectors.hpp'), ('reconstruction', 'cppcore/include/kpm/reconstruct.hpp'),
   ('calculations', 'cppcore/src/kpm/Core.cpp')],
  [('Moments::data', 'expansion moments', 'cppcore/include/kpm/Moments.hpp'), ('Bounds', 'spectrum bounds', 'cppcore/include/kpm/Bounds.hpp')],
  ['KPM.moments', 'KPM.calc_ldos', 'KPM.calc_dos', 'KPM.calc_greens', 'KPM.calc_conductivity'],
  technique='value-graph terms of the inlined flow graph compared with the documented formulas by random interpretation; abstract interpretation of the recurrence over Chebyshev orders; stage order on all paths of the flow graph',
  level_note=TRUST)

P('C14', 'Sites, positions and indices agree everywhere',
  'For every lattice, shape, symmetry and lead: a flat site index names exactly one sublattice and unit cell, and iterators over all sites or '
  'over a slice visit exactly their sites with flat, spatial, sublattice and slice index in step; the position of a site is the origin plus its '
  'sublattice offset plus its combination of lattice vectors; sublattice views hold the block of their sublattice; final indices number the '
  'valid sites from zero in their order; a system and each lead store, under the number of a site, that site\'s position (a lead one lattice '
  'vector outwards) and count it with its own sublattice and orbitals; and everything reported by site or matrix index (matrix indices, '
  'expanded positions, sublattice ranges, decompressed sublattices, nearest site, boundary shifts, lead indices) follows these numbers.',
  ['inputs'], 'all lattices, sizes, shapes, states, slices and sublattices',
  'Tests look at a few small systems; an index that is off only in the third dimension, for a later sublattice, a slice with offset, several '
  'orbitals, or sites with aliases is not seen.',
  ['cppcore/src/system/Foundation.cpp', 'cppcore/include/system/Foundation.hpp', 'cppcore/src/system/System.cpp',
   'cppcore/src/system/CompressedSublattices.cpp', 'cppcore/src/leads/Structure.cpp', 'cppcore/src/Lattice.cpp'],
  [('site indices and iterators', 'cppcore/include/system/Foundation.hpp'), ('positions and final indices', 'cppcore/src/system/Foundation.cpp'),
   ('system arrays', 'cppcore/src/system/System.cpp'), ('sublattice counts', 'cppcore/src/system/CompressedSublattices.cpp'),
   ('lead sites', 'cppcore/src/leads/Structure.cpp'), ('unit cell', 'cppcore/src/Lattice.cpp')],
  [('Foundation::positions', 'site positions', 'cppcore/include/system/Foundation.hpp'),
   ('System::compressed_sublattices', 'runs of equal sublattices', 'cppcore/include/system/System.hpp')],
  ['System.x/y/z', 'System.sublattices', 'System.find_nearest', 'System.to_hamiltonian_indices', 'System.expanded_positions', 'Lead.indices'],
  technique='value-graph terms of one generic pass of each function, and the path conditions of its stores, compared with the index and position rules by random interpretation over sample foundations',
  level_note=TRUST)

P('C15', 'Each lattice bond appears exactly once, in its own direction',
  'For every lattice, shape, symmetry and lead: each lattice hopping joins two sites in both directions, one the conjugate of the other; the '
  'bonds of a finished system are all lattice hoppings from its valid sites to its valid sites in the cells the hopping names, stored once as '
  '(from, to) under their own family, nothing outside; translational symmetry keeps the sites of one unit, and adds one boundary for each '
  'direction in which a bond leaves the unit, shifted by whole periods; boundaries and leads hold the bonds from their sites to the shifted unit, '
  'again once and in their own direction.',
  ['inputs'], 'all lattices, hoppings, families, shapes, periods and leads',
  'Tests build a few small lattices with short symmetric hoppings; a hopping in the wrong direction, a far one that is lost, or one counted twice '
  'only for a complex energy, a long range or a certain period is not seen.',
  ['cppcore/src/Lattice.cpp', 'cppcore/include/system/Foundation.hpp', 'cppcore/src/system/System.cpp', 'cppcore/src/leads/Structure.cpp',
   'cppcore/src/system/Symmetry.cpp'],
  [('unit cell hoppings', 'cppcore/src/Lattice.cpp'), ('neighbors of a site', 'cppcore/include/system/Foundation.hpp'),
   ('system and boundary bonds', 'cppcore/src/system/System.cpp'), ('lead bonds', 'cppcore/src/leads/Structure.cpp'),
   ('symmetry area and translations', 'cppcore/src/system/Symmetry.cpp')],
  [('HoppingBlocks::add', 'bonds by family', 'cppcore/src/system/HoppingBlocks.cpp')],
  ['System.hoppings', 'Model.hamiltonian', 'Lead.h0', 'Lead.h1'],
  technique='value-graph terms of each place where a bond is added and the path conditions before it, compared with the bonds of sample lattices by random interpretation; the symmetry loops are unrolled over sample units',
  level_note=TRUST)

P('C16', 'Shapes select their sites, dangling ones go, leads attach along them',
  'For every shape: a line contains the points between the two planes through its ends, a polygon those inside of it, and a freeform shape is '
  'bounded by the box center +/- width/2; the bounding box covers all vertices; a system starts from the sites that the shape contains; each site that is left out lowers, once, the '
  'number of neighbors of each of its valid neighbors, and those that are left with fewer than the minimum of the lattice are left out in turn, '
  'and no others. For every lead: it is attached at the first slice, coming from its far end, that has a site of the system, its junction is '
  'the middle of its shape, the empty sites of the junction are filled in up to the first existing ones, and a lead that misses the system '
  'is refused.',
  ['inputs'], 'all shapes, lattices, minimum neighbor numbers and leads',
  'Tests count the sites of a few shapes and leads; a point next to another edge, a site removed in the second round, or a lead in the negative '
  'direction that meets the structure later is not seen.',
  ['cppcore/src/system/Shape.cpp', 'cppcore/src/system/Foundation.cpp', 'cppcore/src/leads/Spec.cpp'],
  [('Line, WithinPolygon, FreeformShape', 'cppcore/src/system/Shape.cpp'), ('count_neighbors, clear_neighbors, remove_dangling, Foundation', 'cppcore/src/system/Foundation.cpp'),
   ('shape_slice, attachment_slice, Junction, create_attachment_area', 'cppcore/src/leads/Spec.cpp')],
  [('Site::for_each_neighbor', 'neighbors of a site (C15)', 'cppcore/include/system/Foundation.hpp')],
  ['Model.system', 'Model.attach_lead', 'pybinding.polygon', 'pybinding.line', 'pybinding.FreeformShape'],
  technique='value-graph terms of the predicates and of one pass of each loop over sites, neighbors and slices, compared with the rule by random interpretation at sample points, foundations and leads',
  level_note=TRUST)

# ---------------------------------------------------------------------------------------------------------------------

P('N01', 'KPM spectra converge to the exact ones within the requested broadening',
  'For every Hamiltonian, LDOS, DOS, Green\'s functions and conductivity computed with the kernel polynomial method agree with '
  'exact diagonalization up to the error implied by the requested broadening and the number of random vectors.',
  ['inputs'], 'all Hamiltonians, energies, broadenings', 'Tests compare a few small systems against stored data.',
  ['cppcore/src/kpm/Core.cpp', 'cppcore/include/kpm'], [('moment calculation and reconstruction', 'cppcore/src/kpm')],
  reason='An error bound on floating-point results for arbitrary matrices; no sound static argument over the source bounds it.')
P('N02', 'The Lanczos bounds enclose the spectrum',
  'For every Hermitian matrix the automatically computed bounds, after the safety margin, contain all eigenvalues.',
  ['inputs'], 'all Hermitian matrices', 'Tests use a few lattices.',
  ['cppcore/include/compute/lanczos.hpp'], [('minmax_eigenvalues', 'cppcore/include/compute/lanczos.hpp')],
  reason='Numerical convergence of an iterative method for arbitrary runtime matrices.')
P('N03', 'The foundation of a shape covers every lattice site inside of it',
  'Every lattice site which the shape\'s contains function accepts lies within the bounding box that is searched, and the removal of '
  'dangling sites ends with every remaining site having the minimum number of neighbours.',
  ['inputs'], 'all lattices and shapes', 'Tests count sites for a few shapes.',
  ['cppcore/src/system/Foundation.cpp', 'cppcore/src/system/Shape.cpp'], [('Foundation', 'cppcore/src/system/Foundation.cpp')],
  reason='Depends on user vertices that need not enclose the contains function and on a fixpoint over runtime coordinates; each single step is decided by C16.')
P('N04', 'Eigenvalues and eigenvectors solve the model\'s eigenproblem',
  'The exact solvers return eigenpairs of the model Hamiltonian to working precision.',
  ['inputs'], 'all Hamiltonians', 'Only FEAST or Python back ends provide it and they are not built here.',
  ['cppcore/src/solver', 'pybinding/solver.py'], [('solver strategies', 'cppcore/src/solver')],
  reason='Numerical accuracy of external eigensolvers on runtime data.')
