#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)))
MC = "c++/triqs/mc_tools/"
HS = "c++/triqs/hilbert_space/"
GFS = "c++/triqs/gfs/"
UT = "c++/triqs/utility/"
ST = "c++/triqs/stat/"
ME = "c++/triqs/mesh/"
LA = "c++/triqs/lattice/"
PY = "python/triqs/"

prop("C01", "Metropolis step protocol of the Monte Carlo engine",
 "In every Monte Carlo step exactly one registered move is proposed and it then receives exactly one of accept or reject, before anything else is proposed or measured; it is accepted if and only if the uniform number drawn for the step is below min(1, |ratio|), so a ratio of magnitude at least one (including an infinite real one) always accepts and a zero ratio never does. The running sign seen by measurements is the initial sign multiplied, for each accepted step and for no rejected one, by the phase of the proposed ratio and by the factor the move returned on acceptance.",
 ["inputs", "histories"], "for every set of moves, every sequence of ratios (real of either sign, complex, zero, infinite) and every random stream, over any number of steps",
 "The tests check averages of a few small simulations with wide tolerances; a wrong step for a rare ratio or history leaves the averages inside them.",
 [MC + "mc_generic.hpp", MC + "mc_move_set.hpp"],
 [("run loop", MC + "mc_generic.hpp: run"), ("attempt/accept/reject", MC + "mc_move_set.hpp")],
 ["callbacks of moves and measures", "random_generator draws (twin generator)"], [("sign", "running sign", MC + "mc_generic.hpp")])

prop("C02", "Monte Carlo run control: cycles, status codes and counters",
 "A run with N >= 0 cycles of length L performs exactly N cycles of exactly L steps and returns 0, unless the stop callback (polled once after each cycle) or a caught signal ends it earlier, in which case it returns 1 or 2 after finishing the cycle's bookkeeping; a negative N runs until stopped, N = 0 performs no step, and accumulation follows warm-up only if the warm-up was completed. After each cycle the end-of-cycle duty runs once and, in accumulation runs only, one measurement is taken; warm-up runs measure nothing. The numbers of cycles, configurations and measurements reported and stored equal what was actually done, accumulating over successive runs where documented.",
 ["histories", "inputs", "schedules"], "for every sequence of warm-up/accumulation/run calls, cycle counts and lengths, and every point at which the stop callback or a signal fires",
 "Tests run to completion; early stops, signals at each possible step and repeated runs on one object are not enumerated.",
 [MC + "mc_generic.hpp", UT + "signal_handler.cpp"],
 [("run", MC + "mc_generic.hpp"), ("warmup_and_accumulate", MC + "mc_generic.hpp")], ["return status", "getters", "h5 output"])

prop("C03", "Containment of failures in a Monte Carlo run across ranks",
 "When a move (an attempt, an acceptance, a rejection, or a ratio which is not a number), a measurement, an auxiliary measurement or the end-of-cycle duty fails on one rank, no measurement is taken from the failed cycle, every rank leaves the run in finite time, and every rank reports an error for this run instead of returning a normal status; with rethrowing disabled the whole communicator is aborted. No rank is left waiting for another one, at whatever step the failure strikes and however late the other ranks learn about it.",
 ["fault_sequences", "schedules", "configurations"], "for every number of ranks, every rank/step/callback at which a failure is injected, every visibility delay of the notification, with and without an MPI environment",
 "The tests have no failing move or measure, and run on one rank.",
 [MC + "mc_generic.hpp"], [("emergency stop", MC + "mc_generic.hpp: run")], ["exceptions and statuses per rank"])

prop("C04", "Move selection and acceptance statistics",
 "Moves are selected with probability proportional to their (normalised) proposition weights: the n-th move is chosen exactly when the uniform draw falls in its interval of the cumulative weights, at every level of nested move sets; a move of weight zero is never chosen. The acceptance rates reported after a run equal, for every move and nested move, accepted over proposed attempts of the last run summed over all ranks; statistics are reset at the start of each run. A move whose ratio is not a number is reported as an error, and attempting without any registered move is an error.",
 ["inputs", "histories", "configurations"], "for every list of weights, nesting of move sets, random stream, sequence of runs and number of ranks",
 "Tests use two or three moves with equal weights and check averages only.",
 [MC + "mc_move_set.hpp"], [("attempt", MC + "mc_move_set.hpp"), ("normaliseProba", MC + "mc_move_set.hpp"), ("collect_statistics", MC + "mc_move_set.hpp")])

prop("C05", "Registered measurements: called once each, collected once, isolated",
 "At every measurement each registered measure is called exactly once with the current sign, after every auxiliary measure has been called exactly once in registration order; removed measures are never called again, duplicate names are refused without side effects, and clearing removes all. Collecting results calls each remaining measure's collection exactly once, in the same order on every rank, and reports and stored results contain exactly the registered measures.",
 ["histories", "programs"], "for every history of adding, removing, clearing measures and auxiliary measures, interleaved with runs, collections and reports",
 "Tests add a fixed set of measures and never remove or duplicate them mid-simulation.",
 [MC + "mc_measure_set.hpp", MC + "mc_measure_aux_set.hpp", MC + "mc_generic.hpp"],
 [("measure_set", MC + "mc_measure_set.hpp"), ("measure_aux", MC + "mc_measure_aux_set.hpp")])

prop("C06", "Random number streams: determinism, buffering and ranges",
 "A generator built with a given name and seed always delivers the same stream, which is the stream of the underlying engine whatever the buffering; looking ahead never consumes, moving a generator preserves its position in the stream, and copying a buffered function of a copyable function makes an independent copy at the same position. Scaled draws stay in their documented half-open ranges, integers in [0, n), and unknown names are refused.",
 ["inputs", "histories"], "for every generator name, seed, interleaving of draws, previews, copies and moves, and every range",
 "Tests draw a few numbers from one generator; buffer refills at boundaries, copies in mid-buffer and all names are not enumerated.",
 [MC + "random_generator.hpp", MC + "random_generator.cpp", MC + "MersenneRNG.hpp", MC + "MersenneRNG.cpp", UT + "buffered_function.hpp"],
 [("buffered_function", UT + "buffered_function.hpp"), ("RandMT", MC + "MersenneRNG.hpp"), ("random_generator", MC + "random_generator.cpp")])

prop("C07", "Signal capture and stop callbacks",
 "Between starting and stopping signal capture, every SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1 and SIGUSR2 delivered to the process is recorded once, in order of delivery, and none terminates it; querying reports the most recent pending signal until it is popped (the most recent first) or the capture is stopped, which drops those pending, and starting again while capturing changes nothing. The time-based stop callback stays false until the given time has elapsed and true afterwards, never for a negative time.",
 ["fault_sequences", "histories"], "for every sequence of starts, stops, signals, queries and pops",
 "The tests never deliver a signal.",
 [UT + "signal_handler.cpp", UT + "signal_handler.hpp", UT + "callbacks.cpp"],
 [("signal_handler", UT + "signal_handler.cpp"), ("clock_callback", UT + "callbacks.cpp")])

prop("C08", "Set of fundamental operators: indices and positions",
 "The set of fundamental operators assigns to its n distinct index tuples the positions 0..n-1 in the order of their first insertion, whatever the multiplicity of insertions; lookups by tuple and by position are mutually inverse, absent tuples are reported as absent, and iteration visits every tuple once in position order. Merging appends the tuples not yet present, in order, and writing to and reading from file or converting to plain index lists preserves it.",
 ["histories", "inputs"], "for every sequence of insertions, merges and conversions of tuples mixing integers and strings",
 "Tests insert a few tuples in one order.",
 [HS + "fundamental_operator_set.hpp", HS + "fundamental_operator_set.cpp"],
 [("fundamental_operator_set", HS + "fundamental_operator_set.hpp")])

prop("C09", "Hilbert (sub)space indexing of Fock states",
 "In the full space the Fock states are exactly 0..2^n-1 and index and state coincide; a subspace numbers its states in order of insertion with lookups in both directions inverse to each other and membership tests exact, and an absent state is reported as an error. Building a Fock state from a set of occupied operators sets exactly their bits.",
 ["inputs", "histories"], "for every number of operators up to the supported ones (30 for a full space, 64 for a subspace), every sequence of insertions and lookups",
 "Tests use a 2- or 3-operator space.",
 [HS + "hilbert_space.hpp"], [("hilbert_space", HS + "hilbert_space.hpp"), ("sub_hilbert_space", HS + "hilbert_space.hpp")])

prop("C10", "Action of operators on states obeys fermionic algebra",
 "Applying a many-body operator to a state gives, for every monomial, the Fock state with the operators' bits changed in operator order, with the sign given by the number of occupied orbitals to the left, and zero whenever Pauli exclusion forbids it; the action is linear, products act as successive actions, and both the dictionary and the vector representation of states, on the full space or between subspaces, give the same amplitudes. State addition, scaling, dot products and pruning of negligible amplitudes act amplitude-wise.",
 ["inputs", "configurations"], "for every operator, every state and every number of orbitals up to the supported limit",
 "Tests evaluate a handful of operators on spaces of a few orbitals.",
 [HS + "imperative_operator.hpp", HS + "state.hpp"], [("imperative_operator", HS + "imperative_operator.hpp"), ("state", HS + "state.hpp")])

prop("C11", "Algebra of many-body operators",
 "Sums, products, powers of scalars, negation and Hermitian conjugation of many-body operators represent the corresponding abstract fermionic operators: every expression equals its normal-ordered form under the canonical anticommutation relations, so two expressions for the same operator have the same terms and coefficients, and a term whose coefficient cancels is not kept. Hermitian conjugation is an antilinear involution reversing products, real/complex conversion and term-wise transformation act coefficient-wise, and writing to and reading from file preserves the operator.",
 ["programs", "inputs"], "for every expression tree over creation and annihilation operators and scalars",
 "Tests compare fixed expressions; identities over all expressions are not sampled.",
 ["c++/triqs/operators/many_body_operator.hpp", "c++/triqs/operators/many_body_operator.cpp"],
 [("normalize_and_insert", "c++/triqs/operators/many_body_operator.hpp"), ("hdf5", "c++/triqs/operators/many_body_operator.cpp")])

prop("C12", "Partitioning a Hilbert space into invariant subspaces",
 "The partition produced from a Hamiltonian puts two states in the same subspace if and only if the Hamiltonian (and the extra mixing terms, if given) connects them directly or through other states, every state belongs to exactly one subspace, and subspaces are numbered from 0 in the order of their lowest basis state. After merging for an operator and its conjugate, each of the two maps every subspace into at most one subspace, and no coarser merging than needed is done; reported matrix elements and reported subspace-to-subspace mappings are exactly the nonzero ones.",
 ["inputs"], "for every operator on every state space",
 "Tests check one three-orbital Hamiltonian.",
 [HS + "space_partition.hpp"], [("space_partition", HS + "space_partition.hpp"), ("merge_subspaces", HS + "space_partition.hpp")])

prop("C13", "Exact diagonalisation of a local Hamiltonian",
 "The subspaces found by the diagonaliser partition the Fock space and are invariant under the Hamiltonian; in each, eigenvalues and eigenvectors satisfy the eigenvalue equation with the ground state energy shifted to zero and recorded, the ground state found is the lowest, and the blocks and connections of creation and annihilation operators reproduce their matrix elements in the eigenbasis. Quantum numbers and automatic partitioning give the same spectrum, and expectation values, density matrices and partition functions agree with their definition.",
 ["inputs", "configurations"], "for every Hermitian Hamiltonian conserving the given quantum numbers, every set of operators and both ways of partitioning",
 "Tests check a three-orbital model at one parameter point.",
 ["c++/triqs/atom_diag/atom_diag.hpp", "c++/triqs/atom_diag/functions.hpp", "c++/triqs/atom_diag/impl/worker.cpp", "c++/triqs/atom_diag/impl/atom_diag.cpp"],
 [("atom_diag_worker", "c++/triqs/atom_diag/impl/worker.cpp"), ("functions", "c++/triqs/atom_diag/impl/functions.cpp")])

prop("C14", "Tracked determinant and inverse of a dynamically resized matrix",
 "After any completed sequence of insertions, removals, changes of rows and columns, refills and regenerations, the tracked matrix is the function evaluated on the current row and column arguments in their current order, its tracked determinant and inverse are those of that matrix, and each trial returns the ratio of the trial determinant to the current one. Reordering operations change only the order of rows and columns, with the matching sign of the determinant.",
 ["histories", "inputs"], "for every sequence of single, double, k-fold, change and refill operations, argument values, and crossing of the regeneration and resize limits",
 "Tests run a few fixed or random sequences on one function with loose tolerances, and few combinations of sizes and positions.",
 ["c++/triqs/det_manip/det_manip.hpp"], [("det_manip", "c++/triqs/det_manip/det_manip.hpp")])

prop("C15", "Determinant updates are transactions",
 "A trial operation followed by a rejection leaves the object observably exactly as before, whatever the trial was, including trials of singular or out of range configurations and trials after a failed one; a trial followed by completion gives the trial configuration. Completion without a preceding trial is refused or has no effect, a second trial before completion or rejection is refused, and reading back a stored object or swapping or moving it preserves its whole state, including tolerances.",
 ["histories", "fault_sequences"], "for every sequence of trials, completions, rejections, refused calls, copies, swaps and stores",
 "Tests always pair a valid trial with a completion or rejection.",
 ["c++/triqs/det_manip/det_manip.hpp"], [("last_try", "c++/triqs/det_manip/det_manip.hpp")])

prop("C16", "Time points on a cyclic imaginary-time segment",
 "Time points on [0, beta] are kept on a fixed grid on which comparison is exact and total, addition, subtraction and negation are exact modulo the period, subtracting and re-adding a point is the identity on the circle, and conversions from and to a floating-point number are monotone and faithful, map the two ends to each other and stay inside the segment. Random points lie in the requested half-open sub-interval, and stored points are read back unchanged.",
 ["inputs"], "for every pair of grid points, including the two ends, and every beta",
 "Tests use a few points away from the ends.",
 [UT + "time_pt.hpp"], [("time_pt", UT + "time_pt.hpp"), ("time_segment", UT + "time_pt.hpp")])

prop("C17", "Binned accumulation of measurements",
 "After any number of samples, the linear bins hold the averages (or sums) of consecutive blocks of the samples with the configured capacity, compressing pairwise when the number of bins is exhausted, the logarithmic bins hold at level l the running mean and squared deviation of block averages of 2^l consecutive samples, and samples are counted exactly. Mean, error bars, autocorrelation times and compression of an accumulator are those of the recorded samples, and adding, storing or reading back in the middle of a sequence does not change the final result.",
 ["histories", "inputs"], "for every sequence of samples, bin capacities, numbers of bins and points at which the accumulator is copied, stored or compressed",
 "Tests check a few sequences whose length is a power of two.",
 [ST + "accumulator.hpp"], [("lin_binning", ST + "accumulator.hpp"), ("log_binning", ST + "accumulator.hpp")])

prop("C18", "Histograms count every sample in exactly one place",
 "Every value added to a histogram increases exactly one of: the bin whose interval (nearest mesh point) contains it, or the count of values outside the limits; the totals always match the number of values added. Adding histograms, normalising, cumulating and reducing over ranks act bin by bin, limits that differ are refused, and storing and reading back preserves everything.",
 ["inputs", "histories"], "for every limits and number of bins, every sequence of values including those at and beyond the limits and non-finite ones, and every combination of histograms",
 "Tests add a few interior values.",
 [ST + "histograms.hpp", ST + "histograms.cpp"], [("histogram", ST + "histograms.cpp")])

prop("C19", "Averages and error bars do not depend on the distribution over ranks",
 "Averages, variances, error bars and jackknife estimates computed from samples distributed over any number of ranks equal those of the same samples held by one rank, on every rank for the all-reduce flavours and on the root otherwise; they equal the textbook definitions.",
 ["configurations", "inputs"], "for every list of samples, every distribution over ranks and every function of the averages",
 "Tests run on one rank, or with equal shares.",
 [ST + "mean_error.hpp", ST + "jackknife.hpp", ST + "accumulator.hpp"], [("mean_and_err", ST + "mean_error.hpp"), ("jackknife", ST + "jackknife.hpp")])

prop("C20", "Meshes: indices, data positions and points correspond one to one",
 "On every mesh the valid indices, the positions in the data array and the points visited by iteration correspond one to one, in the same order, with conversions inverse to each other and the number of points equal to the reported size; invalid indices are recognised as invalid. Product meshes combine their factors in row-major order, two meshes built with equal parameters compare equal and meshes differing in any parameter compare different, and storing and reading back yields an equal mesh.",
 ["inputs", "configurations"], "for every mesh type and every choice of its parameters",
 "Tests fix one or two parameter sets for each mesh.",
 [ME + "imfreq.hpp", ME + "imtime.hpp", ME + "bases/linear.hpp", ME + "brzone.hpp", ME + "cyclat.hpp", ME + "prod.hpp", ME + "discrete.hpp", ME + "legendre.hpp"],
 [("to_data_index/to_index", ME)])

prop("C21", "Mesh values, closest points and interpolation",
 "The value of a mesh point is the one defined by the mesh's parameters (Matsubara frequency of its index and statistics, equidistant grid, lattice vector), the closest mesh point to a value is one minimising the distance, with the lower-end and upper-end values mapped to the first and last points, and evaluating at a value between mesh points interpolates linearly between the neighbouring points and reproduces the stored data at mesh points; periodic meshes are evaluated with their periodicity.",
 ["inputs"], "for every mesh, every value in its domain including the end points, and every stored data",
 "Tests sample a few interior values.",
 [ME + "bases/linear.hpp", ME + "imfreq.hpp", ME + "brzone.hpp", ME + "cyclat.hpp", ME + "evaluate.hpp"], [("linear evaluation", ME + "bases/linear.hpp")])

prop("C22", "Bravais lattices, Brillouin zones and tight-binding models",
 "Conversions between lattice indices, lattice coordinates and real-space positions, and between reciprocal coordinates, are linear and mutually inverse and reciprocal vectors are dual to the lattice vectors; the Fourier transform of hopping terms at a momentum is the phase-weighted sum of exactly the given hoppings, periodic in reciprocal-lattice translations and Hermitian whenever the hoppings are. Dispersions along paths and on grids evaluate that transform at the advertised momenta.",
 ["inputs"], "for every lattice, set of hoppings and momentum",
 "Tests evaluate a square lattice at a few momenta.",
 [LA + "bravais_lattice.cpp", LA + "brillouin_zone.cpp", LA + "tight_binding.cpp", LA + "tight_binding.hpp"], [("tight_binding::fourier", LA + "tight_binding.hpp")])

prop("C23", "Super-lattices and the construction of lattice models",
 "A super-lattice built from a tight-binding lattice describes the same system: its hopping terms are those of the base lattice regrouped so that every base hopping appears exactly once between the right cluster sites, the maps between base-lattice and super-lattice coordinates are inverse to each other, cluster sites are exactly one representative per class of translations, orbital names and positions follow the sites, folding a function of super-lattice momentum or of hoppings back averages over the cluster, and super-lattices of super-lattices compose; copies and pickles behave as the original. Lattice models read from Wannier90 or pythTB data have exactly the listed hoppings divided by the degeneracies, k-paths visit the requested points with the stated labels and distances.",
 ["inputs", "configurations"], "for every lattice, super-lattice matrix, choice of cluster sites and input model",
 "Tests build a couple of square super-lattices and one Wannier90 file.",
 [PY + "lattice/super_lattice.py", PY + "lattice/tight_binding.py", PY + "lattice/utils.py"], [("TBSuperLattice", PY + "lattice/super_lattice.py")])

prop("C24", "Block Green's function containers keep names, order and identity",
 "A block Green's function maps its ordered list of unique names to blocks: iteration, indexing by name, name lists and sizes always agree, assignments through the container change the addressed block's data in place and nothing else, and copies are independent whereas views share data. Arithmetic, comparison helpers and mapping act block by block in order, refuse containers with mismatched blocks, and unknown names are refused; the same holds for two-index block functions.",
 ["programs", "inputs"], "for every list of block names and blocks, and every program of construction, indexing, slicing, assignment, copying and arithmetic",
 "Tests build one or two containers with two blocks.",
 [PY + "gf/block_gf.py", PY + "gf/block2_gf.py", PY + "gf/map_block.py"], [("BlockGf", PY + "gf/block_gf.py"), ("Block2Gf", PY + "gf/block2_gf.py")])

prop("C25", "Green's function arithmetic, views and slices act on the data as documented",
 "Green's function arithmetic acts on the stored data as the corresponding pointwise scalar or matrix operation, leaves operands unchanged for binary operators and modifies only the left operand in place for in-place ones; slices of the target space and views share data with the original while copies do not, and assignments write exactly the addressed part. Operands with different meshes or incompatible shapes are refused without modifying anything.",
 ["programs", "inputs"], "for every program of arithmetic, slicing, copying and assignment on scalar-, matrix- and tensor-valued functions",
 "Tests evaluate fixed expressions.",
 [PY + "gf/gf.py"], [("Gf", PY + "gf/gf.py")])

prop("C26", "Lazy expressions and descriptors evaluate like eager arithmetic",
 "Assigning an expression built from descriptors, scalars, matrices and functions to a Green's function gives the same data as evaluating the expression eagerly, for every nesting and order of operators, including inverses; building or printing an expression has no side effect, and analytic descriptors fill in their documented values at every mesh point.",
 ["programs"], "for every expression tree and every mesh point",
 "Tests assign a few one-operator expressions.",
 [PY + "gf/lazy_expressions.py", PY + "gf/descriptors.py", PY + "gf/descriptor_base.py"], [("lazy expressions", PY + "gf/lazy_expressions.py")])

prop("C27", "Arithmetic of Matsubara frequencies",
 "Sums and differences of Matsubara frequencies are the frequencies with added or subtracted values at the same temperature, with fermion/boson statistics combining as (fermion, fermion) to boson and (fermion, boson) to fermion; negation and conversion to a complex number are consistent with that, products follow the values, and in Python frequencies of different temperatures are refused.",
 ["inputs"], "for every pair of indices and statistics",
 "Tests add two frequencies.",
 [ME + "imfreq.hpp", ME + "domains/matsubara.hpp", PY + "gf/matsubara_freq.py"], [("matsubara_freq", ME + "domains/matsubara.hpp")])

prop("C28", "Distribution of work over MPI ranks",
 "Splitting a list over ranks assigns every item to exactly one rank, contiguously, in order and with sizes differing by at most one, and gathering or reducing the parts gives the same result on every rank as on a single one; without MPI the same calls behave as on one rank. Every work item of a distributed loop is computed exactly once, its value reaches the master exactly once, labelled with the rank that computed it, and all ranks leave the loop.",
 ["configurations", "inputs", "schedules"], "for every number of items and ranks",
 "Tests run on one rank.",
 [PY + "utility/mpi.py.in", PY + "utility/mpi_mpi4py.py", PY + "utility/mpi_nompi.py", PY + "utility/dist_on_nodes.py"],
 [("slice_array", PY + "utility"), ("DistributionOnNodes", PY + "utility/dist_on_nodes.py")])

prop("C29", "Root finding by dichotomy",
 "The bisection helpers return a point bracketed by arguments at which the function changes sign, within the requested precision whenever they report success, report failure otherwise, never evaluate outside the bracketing they have found, and terminate within the maximal number of iterations.",
 ["inputs"], "for every monotone or continuous function, starting point, step and precision",
 "Tests solve one equation.",
 [PY + "utility/dichotomy.py", PY + "utility/bound_and_bisect.py"], [("dichotomy", PY + "utility/dichotomy.py")])

prop("C30", "Hamiltonian and observable constructors",
 "Interaction Hamiltonians and observables built by the helper functions equal their defining sums over orbitals and spins: they are Hermitian, conserve particle number (and spin projection where stated), the Kanamori form is rotationally invariant for the symmetric parameter choice, the Slater parameters and radial integrals are converted consistently in both directions, and spin and orbital angular momentum operators satisfy the angular momentum algebra, and the coefficients, blocks and sub-operators extracted from an operator are exactly those it consists of (anything else is refused unless it is asked to be ignored).",
 ["inputs", "configurations"], "for every number of orbitals, naming convention and parameter values",
 "Tests compare a few Hamiltonians with stored references.",
 [PY + "operators/util/hamiltonians.py", PY + "operators/util/observables.py", PY + "operators/util/op_struct.py", PY + "operators/util/U_matrix.py", "c++/triqs/operators/util/extractors.hpp"],
 [("h_int_*", PY + "operators/util/hamiltonians.py")])

prop("C31", "Scoped cleanup, levelled reporting, timers and generic helpers",
 "A scope guard runs its action exactly once at the end of its scope unless dismissed or moved away; a levelled report stream prints exactly the messages at or below its verbosity; timers accumulate exactly the intervals between start and stop, and exceptions carry exactly the text streamed into them, also when they are copied.",
 ["programs", "fault_sequences"], "for every order of construction, moves, dismissals, exceptions and nested uses",
 "Tests cover each helper in one straight-line use.",
 [UT + "scope_guard.hpp", UT + "report_stream.hpp", UT + "timer.hpp", UT + "exceptions.hpp", UT + "callbacks.cpp"],
 [("scope_guard", UT + "scope_guard.hpp")])

prop("C32", "Generic tuple tools, runtime real-or-complex numbers and numeric helpers",
 "Tuple folds, maps, filters, zips and reversals visit every element exactly once in the documented order and compose as their definitions say; lazily bracketed and factory-made objects equal those built directly; a runtime real-or-complex number behaves in arithmetic as the complex number it holds, remains real exactly when all its inputs are real, and refuses to be read as real otherwise. Generated Legendre polynomials satisfy their recursion for every order and point, and the coefficients used to switch bases agree with them.",
 ["programs", "inputs"], "for every tuple, sequence of numeric operations, order and argument",
 "Tests evaluate one or two fixed instances of each helper.",
 [UT + "tuple_tools.hpp", UT + "real_or_complex.hpp", UT + "numeric_ops.hpp", UT + "legendre.hpp", UT + "legendre.cpp", UT + "dressed_iterator.hpp", UT + "factory.hpp", UT + "lazy_bracket.hpp", UT + "kronecker.hpp", UT + "variant_extensions.hpp"],
 [("tuple tools", UT + "tuple_tools.hpp"), ("real_or_complex", UT + "real_or_complex.hpp"), ("legendre_generator", UT + "legendre.hpp")])

prop("C33", "Green's function containers in C++: values, views, expressions and blocks",
 "After any sequence of operations on gf, gf_view, block_gf and block_gf_view, every container holds exactly the mesh, target shape and values that the sequence defines: a copy shares nothing with its source; a view (of a whole function, a slice or an element of the target, the positive frequencies, a block container) shares exactly the elements it was made of, and rebinding a view changes no value; assigning an expression gives a container the mesh of the expression and the value of the expression at every point, as computed from the operands before the assignment, and a view (which keeps its mesh and refuses another one) the values only; a compound assignment equals its expansion; sums, differences, products and quotients act point by point (matrix products for matrix values, the statistics of a product of imaginary time functions being that of its factors combined), and an expression whose operands have different meshes, target shapes or numbers of blocks is refused without changing anything. Conjugate, inverse, products with matrices, shifts, real and imaginary parts, the tests of and the projection on hermitian or real functions, the completion of a function known for positive frequencies, hdf5 round trips and MPI reductions return what their definitions say. Block containers keep the order and names of their blocks through copies, views, maps, expressions and hdf5, and act block by block.",
 ["programs", "inputs"], "for every sequence of operations, aliasing of operands and targets, mesh, target shape and values",
 "Tests use single operations on a few fixed functions, and do not combine views, aliasing and failures.",
 [GFS + x for x in ("gf/gf.hpp", "gf/gf_view.hpp", "gf/gf_const_view.hpp", "gf/gf_expr.hpp", "gf/_gf_view_common.hpp", "gf/auto_assign.hpp", "block/block_gf.hpp", "block/block_gf_view.hpp", "block/expr.hpp", "block/map.hpp", "block/factories.hpp", "functions/functions2.hpp", "functions/imfreq.hpp", "legacy_for_python_api.hpp", "h5.hpp")],
 [("containers", GFS + "gf/gf.hpp"), ("views", GFS + "gf/gf_view.hpp"), ("expressions", GFS + "gf/gf_expr.hpp"), ("blocks", GFS + "block/_block_gf_view_common.hpp")])

prop("C34", "Accuracy of numerical transforms",
 "Fourier, Legendre, discrete Lehmann and Pade transforms and tail fits agree with the analytic transform of the represented function to the accuracy their parameters promise, and forward and backward transforms are inverse to each other.",
 ["inputs"], "for every representable function and mesh",
 "Tests use a few one-pole functions.",
 ["c++/triqs/gfs/transform/fourier_matsubara.cpp", "c++/triqs/gfs/transform/pade.cpp", ME + "tail_fitter.hpp"], [("fourier", "c++/triqs/gfs/transform")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in sorted(P, key=lambda p: p["id"]): f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        for a in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + a): print("missing", p["id"], a)
