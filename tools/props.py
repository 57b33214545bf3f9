#!/opt/venv/bin/python
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/flowstab/"
FST, STT, NC, TN, SSM, PC, PX, LG, SYN = (S + x for x in (
    "flow_stability.py", "state_tracking.py", "network_clustering.py", "temporal_network.py",
    "sparse_stoch_mat.py", "parallel_clustering.py", "parallel_expm.py", "logger.py", "synth_temp_network.py"))
CFF, CSS, SUB, SUB2 = (S + x for x in ("_cython_fast_funcs.pyx", "_cython_sparse_stoch.pyx", "_cython_subst.py", "_cython_sparse_stoch_subst.py"))

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None),
                  _technique=technique, _note=note, _na=na))


prop("P01", "Workflow steps run only when their prerequisites are met",
     "A step of the analysis workflow (setting the network, Laplacians, transition matrices, flow clustering, community search) is executed only if the analysis has reached the stage the step declares as its prerequisite and every setting required up to that stage has been given; otherwise nothing is executed or changed and the caller is warned. After a step ran, the reported stage is exactly the stage the step declares as its result, and a step that fails does not advance it.",
     ["histories"], "every order of calls and settings on an analysis object, including repeated, failing and out-of-order steps, on several analysis objects",
     "The tests drive a few fixed orders; the guarantee is over every sequence of setting and running steps and over failures inside a step.",
     [STT, FST], [("StateMeta.register", STT), ("FlowStability step methods", FST)],
     "abstract interpretation of the state-tracking decorator and of every registered step; finite enumeration of stage/setting combinations",
     "Sound for the decorator/steps as resolved by the source model; properties and stages are enumerated from the source. Trusts the Python-to-term interpreter.")

prop("P02", "Changing a setting rewinds the workflow to the stage that used it",
     "When a setting is assigned, the analysis falls back to (at most) the last stage whose results do not depend on that setting, so later steps have to be run again before their results count as current. Assigning a setting never advances the stage, and a setting counts as given exactly when the last assigned value was not none (or none is declared acceptable for it: none is acceptable for t_start and t_stop, where it means the whole period, and never for the network and the time scale).",
     ["histories"], "every sequence of settings and steps on an analysis object",
     "Tests change a couple of settings at a couple of stages; the guarantee is over every setting at every stage.",
     [STT, FST], [("StateMeta.register setters", STT), ("FlowStability properties", FST)],
     "abstract interpretation of the property-setter wrapper; finite enumeration over stages x settings; use-before-stage dataflow",
     "As P01.")

prop("P12", "A partition's two views always agree",
     "A partition of N nodes keeps two views, the list of clusters and the node-to-cluster index. After construction and after every operation on it (moving a node, dropping empty clusters, building it from either view, recomposing the partitions of two levels) the two agree: every node belongs to exactly one cluster, the index names that cluster, and cluster indices are valid positions in the list. What is derived from the views agrees with them: the number of (non-empty) clusters, the indicator matrix, which has a one exactly at each node and its cluster, and the integrity check, which refuses any list that leaves a node out or names it twice.",
     ["inputs", "histories"], "every sequence of partition operations from every start (singletons, given clusters, given index, or a search)",
     "Tests exercise a few fixed partitions; the agreement must survive every sequence of moves, merges and clean-ups, including ones that empty clusters in the middle of the list.",
     [NC], [("Partition", NC), ("BaseClustering._get_updated_partition", NC)],
     "abstract interpretation of every writer of either view; container-content equations per operation; field-write ownership",
     "Inductive: each operation preserves the invariant. Caller-supplied cluster lists that do not cover the nodes are outside (checked on request by check_integrity).")

prop("P13", "Community search commits only best, non-losing moves and sums them",
     "In the node-moving phase every node is offered all clusters that hold one of its in- or out-neighbours, a node is moved only to the cluster whose evaluated gain is the largest among those offered, and never when that gain is negative. The improvement reported for the phase (and used to decide whether to continue) is exactly the sum of the gains of the moves made.",
     ["inputs", "histories"], "every flow matrix, starting partition, node order and candidate order",
     "Tests run a few fixed graphs with fixed seeds and compare final clusterings; a wrong comparison or bookkeeping slip only shows on particular gain orders.",
     [NC], [("Clustering._louvain_move_nodes", NC), ("BaseClustering._louvain_move_nodes", NC), ("Clustering._potential_new_clusters", NC)],
     "abstract interpretation of the scan loop; case enumeration of one iteration with linear-inequality entailment",
     "Inductive argument over loop iterations with gain functions opaque (their values are P20). Floating-point equality of sums is read as real arithmetic.")

prop("P20", "The gain computed for a move equals the change of the objective",
     "For every node, cluster and flow matrix, the gain computed for taking a node out of its cluster or putting it into another equals the exact change of the total within-cluster stability, for the dense and the sparse representation, compiled or pure Python, and for uniform and general node weights.",
     ["inputs", "configurations"], "every matrix (including rows without entries), every partition and node, every implementation variant",
     "Tests evaluate a handful of random matrices, mostly through one implementation; index slips on empty rows, non-symmetric matrices or vector weights stay invisible.",
     [NC, CFF, CSS, SUB], [("Clustering._compute_delta_stab_moveto/moveout", NC), ("SparseClustering._compute_delta_stab_moveto/moveout", NC),
                           ("compute_delta_PT_moveto/moveout, compute_delta_S_moveto/moveout", CSS)],
     "symbolic summation normal form extracted by abstract interpretation across Python and Cython sources, compared with the definition",
     "Algebraic identity over the reals of the accumulated sums; trusts the Cython front end of the analyser.")

prop("P14", "Search effort limits and stopping rules are honoured",
     "A community search makes at most n_sub_iter_max node-moving passes on each level and at most n_meta_iter_max+1 levels; it stops earlier only because a pass or level brought no improvement above the threshold or nothing is left to merge. The limits, the threshold and the reporting options given to any entry point (a clustering object, the flow-integral wrapper, the analysis object, multi-start and parallel runs) reach the search in their own role, and the reported number of levels is the number actually run.",
     ["inputs", "configurations"], "every flow matrix, every value of the limits including zero, every entry point",
     "Tests leave the limits at their large defaults, so that a limit that is off by one, swapped or dropped on the way is invisible.",
     [NC, PC, FST], [("BaseClustering.find_louvain_clustering", NC), ("Clustering._louvain_move_nodes", NC), ("FlowIntegralClustering.find_louvain_clustering", NC), ("run_multi_louvain", NC)],
     "loop-bound analysis of abstractly interpreted loops (trip counts, exit conditions) and argument-binding dataflow across entry points",
     "Trip-count bounds from loop guards and monotone counters; exit conditions classified by the terms they compare.")

prop("P22", "Multi-level search composes its levels faithfully",
     "The nodes of each level of the community search are exactly the clusters found so far (on the first level the nodes themselves, whatever the starting partition); the next level is built by aggregating the current flow matrix, null model and node weights over the current partition, each in its own role; and the returned partition of the original nodes is the composition of the partitions of all levels. A starting partition passed in by the caller is left as it was. When progress is to be saved, the partition at the start and after every level is recorded as it is at that moment, together with its stability, after what earlier searches recorded.",
     ["inputs", "histories"], "every flow matrix, starting partition (including non-singleton ones) and number of levels, for dense and sparse clusterings",
     "Tests mostly end within one or two levels started from singletons, where composition slips cancel out.",
     [NC], [("BaseClustering.find_louvain_clustering", NC), ("BaseClustering._get_updated_partition", NC), ("Clustering/SparseClustering._aggregate_clusters use", NC)],
     "abstract interpretation of the level loop; container-content equations for the composed partition; role dataflow of aggregates into the next level's constructor",
     "Inductive over levels; the values of the aggregates are P21.")

prop("P21", "Every representation optimises the same objective",
     "The objective is the sum over clusters of S over pairs of nodes in the cluster, with S[i,j] = p1[i] T[i,j] - p1[i] p2[j] (forward covariance: p1 T diag(1/p2) T^t p1 - p1 p1). Dense and sparse, compiled and pure-Python code build this same S from the same inputs (given weights are used as given, missing ones are the uniform density and its image under T), report its block sums over the current clusters as the stability, and aggregate S and the weights over clusters without transposing, dropping or double-counting anything.",
     ["inputs", "configurations"], "every transition matrix (including non-symmetric ones), weights and partition; every implementation variant",
     "Tests use mostly symmetric or uniform examples, on which transposed or swapped quantities coincide.",
     [NC, SSM, CFF, CSS], [("BaseClustering._compute_S", NC), ("compute_S", CFF), ("SparseAutocovMat", SSM), ("_aggregate_clusters, _compute_clustered_autocov", NC), ("get_submat_sum, aggregate_csr_mat(_2)", CSS)],
     "index-notation normal forms of matrix expressions and accumulated sums extracted by abstract interpretation (Python and Cython), compared with the definition",
     "Algebraic identity over the reals; entries thresholded on request are outside.")

prop("P09", "Seeded searches are reproducible",
     "With the same inputs and the same seed a community search visits nodes in the same order and returns the same partition, whatever else has used random numbers before, in whichever process it runs. The only randomness is the generator of the clustering object, shared by all levels of a search. Seed 0 is a seed like any other; a seed given to a search takes effect before any node is moved and no seed leaves the generator alone; a generator passed in is the one that is used; every entry point passes seed and generator on. In multi-start runs each run uses the seed it is reported with.",
     ["inputs", "histories", "environments"], "every sequence of searches and other random draws, every seed including 0, every entry point",
     "Tests compare two runs in a row with one non-zero seed; an unseeded draw, a dropped seed or a lost generator shows only with other seeds, other levels or other callers.",
     [NC, PC], [("BaseClustering.__init__ / find_louvain_clustering", NC), ("FlowIntegralClustering.find_louvain_clustering, static_clustering", NC), ("run_multi_louvain", NC)],
     "effect analysis (ambient randomness) over the call graph and dataflow of seed/generator from every entry point",
     "Call graph is name-based (over-approximate). Iteration order of sets of integers is deterministic in CPython and trusted.")

prop("P11", "Parallel runs compute what a serial run would",
     "Work that is distributed over processes gives what the same work in one process would: every worker receives the caller's matrices, node weights, null model, symmetry flag, limits, thresholds and options unchanged and each in its own role, shared arrays are read back with the type and layout they were written with, every run or block is computed exactly once with its own seed or index, and results come back attached to the run, column or block they belong to.",
     ["inputs", "schedules", "configurations"], "every clustering (dense or sparse, symmetric or not), matrix with any number and size of components, any number of processes",
     "The tests run pools on one small symmetric example and compare little of what comes back; a swapped, retyped or reordered argument stays invisible there.",
     [PC, PX, TN], [("compute_parallel_clustering and its workers", PC), ("compute_parallel_nvi", PC), ("compute_parallel_expm, compute_subspace_expm_parallel", PX), ("compute_subspace_expm", TN)],
     "interprocedural dataflow through process-pool initialisers, shared arrays and parameter tuples into workers and back (abstract interpretation); element-type agreement of shared buffers; block-assembly equations",
     "Command-line scripts have their own pools; their calls are covered by the call-conformance property. Numerical values of exponentials are N03.")

prop("P17", "Every matrix describes the interval it is listed for",
     "For every time window, the recorded window bounds are the grid times (and their indices) at or just before the requested bounds, the k-th Laplacian, transition matrix, linearised transition matrix and stationary matrix are those of the k-th interval of that window (rate times interval length, or one when unit steps are asked for, times minus that interval's Laplacian; the documented interpolation between identity, one-step matrix and stationary matrix), there is exactly one per interval (the identity for a window without intervals), the default rate is one over the median interval, networks of instantaneous events use unit steps, what is missing is computed first for the same window, options reach the computation unchanged, and the times handed on to clusterings or files are the times of that same window.",
     ["inputs", "configurations"], "every network, window, rate, matrix format and class of network",
     "Tests compute a couple of whole-span windows; off-by-one positions, a forgotten rate in one branch or times of another window only show for sub-windows or rarely used branches.",
     [TN, NC], [("_get_closest_time, compute_laplacian_matrices", TN), ("compute_inter_transition_matrices, compute_lin_inter_transition_matrices, _compute_stationary_transition", TN), ("sparse_lapl_expm, lin_approx_trans_matrix", TN), ("FlowIntegralClustering.__init__", NC), ("save_inter_T, save_T and variants", TN)],
     "abstract interpretation with list positions and grid positions reduced to one index; polynomial/rational normal forms of exponents, interval lengths and interpolation weights; linear (Fourier-Motzkin) case separation",
     "Numerical values of exponentials are N03; which contacts are active in an interval is P24.")

prop("P24", "The network and its Laplacians represent exactly the given events",
     "A network built from events holds exactly those events (labels numbered once, in sorted order, each event with its own source, target, start and end; derived durations, one unit for instantaneous events, start and end times follow), the static adjacency matrix adds for each pair, in both directions, the contact time that lies within the period, merging keeps the union of overlapping contacts, and for every window the Laplacian of an interval is I - D^-1 (A + S) for the contacts under way in that interval: a start connects both directions, an end disconnects both, rows of the same time are replayed in the order in which the contacts began, degrees count current partners, isolated nodes (and only they) have a self-loop, contacts begun before the window are included, and instantaneous events act in their own interval only.",
     ["inputs", "histories"], "every list or table of events, in any order, with repeated, touching and overlapping contacts, and every time window",
     "Tests replay one or two short event lists; which state is updated on which path shows only for particular successions of events.",
     [TN], [("ContTempNetwork.__init__, ContTempInstNetwork.__init__", TN), ("compute_laplacian_matrices (both classes)", TN), ("_compute_time_grid, _merge_overlapping_events, compute_static_adjacency_matrix", TN)],
     "abstract interpretation; the loop's transition function on adjacency, degrees, self-loops and inverse degrees evaluated over a finite abstraction of the state (connected or not, degree 0/1/2/more, start/end); matching of role-carrying terms for construction, grid and merging",
     "Self-contacts (source equals target) are outside the documented domain. Overlapping contacts of one pair need merge_overlapping_events, as documented; pandas' own operations are taken at face value.")

prop("P16", "Forward and backward analyses use the right order of time",
     "A forward quantity is built from the intervals of the window in increasing time and a backward one from the same intervals in decreasing time, each interval exactly once: products of transition matrices (exact and linearised, with or without intermediate results) multiply each further interval on the right of the product so far, starting with the first (backward: the last), are computed for every rate that is not there yet, and have their rows normalised again after each step and after small entries were removed; matrices, times and integration grid of a flow integral run in the same direction, and grid times are attached to the nearest grid time already reached. The analysis object builds, stores and searches forward and backward clusterings under their own direction and refuses one of the other direction.",
     ["inputs", "histories"], "every network, window, number of intervals, rate, matrix format and direction setting, in every order of forward and backward computations",
     "Tests use symmetric toy networks or one direction, where the order of a product or a missing reversal makes no visible difference.",
     [TN, NC, FST], [("compute_transition_matrices, compute_lin_transition_matrices", TN), ("FlowIntegralClustering.__init__, _compute_T_list", NC), ("set_flow_clustering, find_louvain_clustering, flow_clustering setters", FST)],
     "abstract interpretation with list positions reduced to an index; recognition of accumulated products (first factor, further factors, side, step, count); dataflow of the direction flag",
     "A transition matrix sequence given by the caller is taken to be in the direction it is declared for.")

prop("P23", "The flow integral is the time average of the forward covariance",
     "For a grid time t the covariance that is clustered is P1 [ (1/t) sum over steps of dt_k T_k diag(1/p_k) T_k^t ] P1 - p1 p1^t, where T_k leads from the beginning to the end of step k, p_k = p1 T_k (nodes that are never reached contribute nothing), dt_k is the positive length of step k and t the sum of the lengths so far, for dense, CSR and SparseStochMat matrices, with and without MKL, in both directions of time. There is one covariance per grid time after the first, in the order of the grid, and a search for entry k uses the covariance of entry k, with the options of the caller; the transition matrices are left as they were.",
     ["inputs", "configurations"], "every sequence of transition matrices and times (uneven, increasing or decreasing), node weights and grid, every matrix format",
     "Tests use unit time steps and symmetric matrices with uniform weights and a single grid interval; a missing weight, a transposition or a normalisation by the wrong time cancels out there.",
     [NC], [("FlowIntegralClustering._compute_integral", NC), ("FlowIntegralClustering.__init__ (I_list, p1)", NC), ("FlowIntegralClustering.find_louvain_clustering", NC)],
     "abstract interpretation; element (i,j) of the accumulated matrix expression in index notation, with in-place scalings applied in program order, compared as a rational function with the definition; one-step induction over the accumulators",
     "Real arithmetic; entries pruned below a relative tolerance are outside. The grid is taken to start at the first time and to be monotone.")

prop("P26", "Every requested time scale is analysed with its own rate",
     "All time scales given to an analysis (a number, none, or any iterable, also one that can be read only once) are kept, in order, after checking that they are positive, and can be read any number of times. Every step of the analysis covers every one of them: transition matrices are computed at rate 1/ts (exact or linearised as asked for), the flow clustering of ts is built from all the matrices computed for that same rate and kind by the last computation, in order, and is stored and searched under ts; a time scale or rate passed with the call replaces the setting; options of the caller reach the computation. A clustering that cannot be built leaves none, not that of an earlier call.",
     ["inputs", "histories"], "every sequence of time-scale settings (numbers, lists, arrays, generators) and steps, repeated with other options",
     "Tests use one scale, or a list, and one pass through the workflow; a lost scale, a key mixed up between scale and rate (equal for 1) or a stale result shows only with several scales or repeated steps.",
     [FST], [("FlowStability.time_scale, lamda, set_time_scale, __init__", FST), ("compute_inter_transition_matrices, set_flow_clustering, find_louvain_clustering", FST)],
     "abstract interpretation of the setter per kind of argument and of every step; agreement of the storing and the looking-up key expressions; loop coverage; exception-path effect analysis",
     "Which direction is built is P16, which times are used is P17.")

prop("P27", "The analysis object uses the settings it was given",
     "Whatever is set on an analysis object is what it uses. Reading t_start, t_stop, the time direction (none meaning both), the time scales and their rates, the temporal network and the flow clusterings gives what was set last, whichever way it was set (constructor, attribute or method); directions other than -1, 0, 1, time scales that are not positive numbers, and clusterings that are not flow integrals of the direction are refused and never stored. The Laplacians are computed by the network that was set, for the window that was set; the transition matrices for the rate of each time scale, a time scale or rate passed with the call replacing the setting; the flow clusterings are built exactly for the directions asked for, from the matrices of that time scale and kind and the times of the analysed window, and searched for exactly these directions. Other keyword arguments of a step reach the computation unchanged.",
     ["inputs", "histories"], "every value of every setting, in every combination and order of setting and steps",
     "Tests set a few values and run the workflow to the end without looking at what reaches the computation; a setting that is dropped, swapped or replaced by a default for some values gives plausible results.",
     [FST], [("FlowStability.t_start, t_stop, time_direction, time_scale, temporal_network, flow_clustering_forward/backward", FST), ("FlowStability.set_temporal_network, set_time_scale, __init__", FST), ("FlowStability.compute_laplacian_matrices, compute_inter_transition_matrices, set_flow_clustering, find_louvain_clustering", FST)],
     "value-flow analysis (abstract interpretation over arbitrary values) of short sequences of operations: set and read, set and run a step; arguments at the call sites of the network and the flow integral compared with the settings",
     "Order of the steps is P01/P02; what the network does with the window is P17; several time scales are P26.")

prop("P28", "The analysis reports truthfully what is missing and what comes next",
     "At every moment the state of an analysis object reports exactly the settings that are required up to the current stage and have not been given (state.missing_parameters), and names these together with the step that can be run from the current stage (state.next; the last step once everything is done), as well as the steps that lead to each stage. help() shows all of them, and help(name) shows the documentation of that very setting or step and of no other: what it is and, for a setting, how to set it.",
     ["histories"], "every situation (stage and settings given) an analysis object can be in, every member of the class",
     "Tests look at one or two situations; the report must be right in every one of the combinations of stage and given settings.",
     [STT, FST], [("State.missing_parameters, State.next", STT), ("StateMeta.init_state", STT), ("FlowStability.help", FST)],
     "abstract interpretation of the metaclass over the registered members (constant propagation of its tables), exhaustive enumeration of the situations; value-flow analysis of the help text",
     "Stages are compared by position (checked in P01). Which wording help uses is not judged.")

prop("P04", "A saved network is loaded as it was",
     "Loading what was saved gives a network with every attribute the saved one had, with the same values: events and labels, time grid, the analysed period, all matrices computed so far, flags and timings; what had not been computed is not there afterwards. A selection of matrices, on saving or loading, restores those and only those. Saving changes nothing in the network. The same file name given to save and load, with or without extension and whatever dots it contains, means the same file, and different names mean different files; an existing file is replaced.",
     ["inputs", "histories"], "every network state reachable by the methods of the network classes and every file name",
     "Tests save one network in one state and compare a few attributes; an attribute introduced later, a state with everything computed, or a name with dots is not sampled.",
     [TN], [("ContTempNetwork.save, load", TN), ("ContTempNetwork.__init__", TN)],
     "value-flow analysis of save followed by load composed into one program, in two abstract states; the set of attributes to restore is computed from the class (effect analysis); evaluation of the extracted file-name expressions over classes of names",
     "Pickle itself is trusted to return what it was given. The attributes of SynthTempNetwork, whose constructor differs, are not covered.")
prop("P05", "Transition matrices in files are the ones that were computed",
     "Transition matrices written by save_inter_T, save_inter_T_lin, save_T and save_T_lin, for all rates or for one, as sparse stochastic matrices, as plain matrices or as differences, are loaded by load_inter_T and load_T as the same matrices: for every rate and step count, as many, in the same order, each with all of its fields, together with the period, the times and the number of nodes. Rounding, only when asked for, zeroes entries up to the tolerance (differences by magnitude) in the file and never in the network. Saver and loader agree on file name and compression, and an existing file is kept or replaced as asked.",
     ["inputs"], "every set of rates, step counts and matrices, all combinations of the options",
     "Tests store a single rate in one format; a matrix lost, reordered, rounded in place or stored under another key shows only for some combination of options.",
     [TN, SSM], [("save_inter_T, save_inter_T_lin, save_T, save_T_lin, load_inter_T, load_T, _compute_delta_trans_mat", TN), ("SparseStochMat.to_dict, copy, __init__, set_to_zeroes", SSM)],
     "value-flow analysis of saver and loader composed into one program over a materialised abstract network (two rates, up to three distinct symbolic matrices each), per combination of options; ownership (root) analysis of every write; evaluation of the file-name expressions over classes of names",
     "Floating-point rounding in adding up differences is not considered. The number of rates and matrices is fixed (2 x 3); the code treats them uniformly.")

prop("P25", "SparseStochMat computes like the full matrix it stands for",
     "A SparseStochMat stands for the full square matrix that has its small matrix in the listed rows and columns and diag_val on the rest of the diagonal. Addition, subtraction, products (with each other, with scalars, and with dense or sparse matrices on either side), transposition, adding to or subtracting from the diagonal, copying, conversion to and from full CSR matrices, taking rows out of a full matrix, row normalisation and the in-place diagonal scalings give exactly the matrix that the same operation on the full matrices gives, whatever rows the operands list (disjoint, shared, nested, none) and whatever their diagonal values, with the result's rows listed in increasing order, and never write outside their buffers.",
     ["inputs"], "all pairs of sparse stochastic matrices of one size, every overlap of their listed rows, every diagonal value, every sparsity pattern, scalars and plain matrices as the other operand",
     "Tests compare a few random matrices; row kinds (in one operand, in both, in none), diagonals other than 1, empty rows and unsorted lists appear only by chance.",
     [SSM, CSS], [("SparseStochMat.__add__, __sub__, __matmul__, __mul__, transpose, add_diag, sub_diag, from_full_csr_matrix", SSM), ("stoch_mat_add, stoch_mat_sub, rebuild_nnz_rowcol, sparse_stoch_from_full_csr, inplace_csr_row_normalize", CSS), ("SPA::scatter, reset", "src/flowstab/sparse_accumulator.cpp")],
     "abstract interpretation of every operator into non-commutative polynomials of full matrices, compared with the operation's definition per overlap and diagonal case; one-iteration transfer of the compiled row loops per kind of row (cursors, row pointers, values, columns, buffer sizes); the C++ accumulator through clang's syntax tree",
     "Real arithmetic. The rows given to the constructor are in increasing order and cover all rows and columns with other entries. numpy integer scalars (refused), the upper triangle returned by MKL's Gram product and the unused sparse_outer are outside.")

prop("P06", "Computing never changes the data it is given",
     "No function, constructor or method of the package changes the matrices, arrays, tables, lists, partitions or dictionaries passed to it, and none changes the data an object stands for (the operands of the sparse matrix classes, the transition matrix, densities and covariance of a clustering, the matrices, times and densities of a flow integral clustering, the events and the already computed laplacians, adjacencies, inter_T, T of a network), except the operations that are in-place by name (inplace_*, set_to_zeroes, set_to_ones, Partition.move_node and remove_empty_clusters), which change only their target. An object built from given data does not change that data later through its own in-place operations, and saving to a file, rounding for the file included, leaves the object in memory as it was.",
     ["inputs", "histories"], "all inputs in every storage format (also those for which a conversion returns its argument), all orders of calls on shared objects",
     "A test looks at the result, not at the arguments afterwards, and a conversion such as tocsr or asarray shares storage only for some input formats.",
     [TN, NC, SSM, CSS, PX, PC], [("SparseStochMat, SparseAutocovMat (all methods)", SSM), ("Partition, BaseClustering, Clustering, SparseClustering, FlowIntegralClustering", NC), ("ContTempNetwork.save_*, compute_*; csc_row_normalize, sparse_lapl_expm, sparse_lin_approx", TN)],
     "interprocedural effect and alias analysis: every store is traced to the object it changes through views, non-copying conversions, containers and loops, and compared with what arguments and object fields may share",
     "The order of the stored entries of a sparse matrix and explicit zeros (sort_indices, eliminate_zeros) are not part of its value. Methods called on objects of unknown class are followed only if they are in-place by name. Data read back from a result list while it is being built in a loop is not followed.")

prop("P29", "Matrices assembled from connected components are those of the whole matrix",
     "compute_subspace_expm and compute_subspace_expm_parallel return the exponential of the whole matrix although they compute it component by component: entry (i, j) is the entry of the exponential of the block of node i's own connected component at the places of i and j within it, and 0 when j is in another component, for any number, interleaving and size of components (below and above the size from which a component is computed column by column), with the components given, partly given or not given. compute_parallel_expm puts in column i the exponential applied to the i-th unit vector, for every column and for input in any sparse format. compute_stationary_transition gives every node of a component the same row: the number of stored non-zero entries of each of the component's nodes over their sum, stored zeros not counted. With thresh_ratio exactly the entries smaller than the maximum divided by it are dropped (per column in compute_parallel_expm), without it none; rows are normalised exactly when normalize_rows is set, after assembly.",
     ["inputs"], "all matrices, all labellings and sizes of connected components, all input formats",
     "Tests use small matrices with one or two components numbered in order, below the size at which the parallel path switches method.",
     [PX, TN], [("compute_subspace_expm_parallel, compute_parallel_expm, _worker, _init_worker, _expm_worker", PX), ("compute_subspace_expm, compute_stationary_transition", TN)],
     "abstract interpretation of the assembly loops: containers filled in loops are read back at a symbolic component, rows, columns, values, cursor and row pointer of a symbolic row are compared with the definition; pool initialiser and worker are composed with the arguments they are given",
     "The numerical accuracy of scipy's expm and expm_multiply is not covered. compute_subspace_expm_parallel requires csc input as documented.")

prop("P30", "Rounding removes exactly what the tolerance says",
     "set_to_zeroes removes from a CSR, CSC or SparseStochMat matrix the stored entries that are at most the tolerance, or at most the tolerance times the largest absolute entry when it is relative (the default), comparing the entries or, with use_absolute_value, their absolute values; all three representations treat the same options the same way; the removed entries are no longer stored, all others keep their value, tol=None and matrices without entries are left alone. set_to_ones changes exactly the entries within the tolerance of one. Every computation and every save that rounds uses the tolerance its caller gave, relative to the matrix, and differences of matrices are rounded by absolute value so that negative entries survive.",
     ["inputs"], "all matrices in the three representations, all tolerances and option combinations, all rounding call sites",
     "Tests round matrices with non-negative entries and the default options; the representation, sign and emptiness of a matrix depend on the data.",
     [TN, SSM, NC], [("set_to_zeroes, set_to_ones and their callers (save_*, compute_transition_matrices, _compute_delta_trans_mat)", TN), ("SparseStochMat.set_to_zeroes", SSM), ("FlowIntegralClustering._compute_integral", NC)],
     "abstract interpretation of the rounding functions under every combination of options, with the store's condition compared with the definition; tolerance and sign of the rounded matrix traced at every call site",
     "Whether a matrix other than a difference has negative entries is not decided.")

prop("P31", "Similarity measures of partitions follow their definitions",
     "norm_var_information is (H(C1|C2)+H(C2|C1))/log2 N = -sum_ij nij log2(nij^2/(ni nj))/(N log2 N) over all pairs of clusters, with N the number of nodes; norm_mutual_information is (H1+H2-H12)/max(H1,H2); jaccard_distance is the fraction of node pairs together in at least one partition that are not together in both (0 if there is none). This holds for every pair of partitions of the same nodes, for every accepted kind of argument (list of sets, list of other collections, node-to-cluster dictionary, Partition; empty clusters do not count) and with and without the compiled kernels: shortcuts that stop a scan or return early do so only when the result is the same. avg_norm_var_information and compute_parallel_nvi evaluate distinct pairs of different partitions, as many as asked for and at most all of them, each with the number of nodes.",
     ["inputs"], "all pairs of partitions of the same nodes, all argument kinds, both back ends, all numbers of samples",
     "The tests have a few fixed pairs of partitions; early exits, trivial cases, numbering gaps and cluster order only matter for particular partitions.",
     [NC, CFF, PC], [("norm_var_information, norm_mutual_information, jaccard_distance, avg_norm_var_information", NC), ("cython_nvi, cython_nmi", CFF), ("compute_parallel_nvi, _compute_nvi_sample", PC)],
     "abstract interpretation of the measures per kind of argument and back end; sums over clusters and pairs of nodes brought to a normal form, logarithms expanded, exits of scans required to imply that nothing is left, compared with the definitions",
     "NMI of two one-cluster partitions (0/0) and unused variants of the kernels (cython_nvi_parallel, _vectors, _mat) are outside.")

prop("P32", "A static graph is clustered by its own random walk",
     "static_clustering(A, t, ...) returns a clustering object of the kind of its matrix (SparseClustering for a csr matrix, Clustering for an array) whose T is the transition matrix of the random walk on A after time t: with X = D^-1(A + self loops of weight 1 at the nodes without links), T = X^t for discrete_time_rw and an integer t, else I - t(I - X) if linearized, else expm(-t(I - X)). Its p1 and p2 are the degrees divided by their sum or, for a directed graph, the stationary distribution of X (the left eigenvector of eigenvalue 1, divided by its sum). The random seed is handed on; the caller's matrix is not changed; other types of A, and graphs without links, are refused.",
     ["inputs"], "all graphs (isolated nodes included), both formats, directed or not, all times, discrete/linearized/exact",
     "The tests cluster a few connected undirected graphs; isolated nodes, directed or periodic graphs, other times and the sparse branch take other paths.",
     [NC], [("static_clustering", NC)],
     "abstract interpretation of static_clustering per format and option with versions of every updated matrix; the constructor arguments compared as normal forms of matrix terms with the definition",
     "numerical accuracy of expm and of the eigensolver is outside; ergodicity of a directed graph is the caller's precondition.")
prop("P33", "Repeated serial runs are independent runs of the same problem",
     "run_multi_louvain(clustering, num_repeat, **options) makes num_repeat new clusterings of the given one's kind with its p1, p2, S and T, each with a seed drawn for it, runs the community search of each once with the given options, and returns for every run its number of loops, its clusters, its stability and its seed, in the same order, the clusters and the stability taken after the search.",
     ["inputs"], "all clusterings (dense, sparse, covariance integral), numbers of runs, options",
     "The tests look at the shape of one call's result; which run an entry belongs to, and whether an option reached every run, only shows on particular inputs.",
     [NC], [("run_multi_louvain", NC)],
     "abstract interpretation of run_multi_louvain; the constructor call, search call and appended results of one symbolic run compared with the contract, order of events checked",
     "the state a given clustering object already has (its partition) is not part of the runs.")

prop("P34", "A simulated network holds exactly the contacts that took place",
     "SynthTempNetwork.run() simulates the given individuals, listed in any order, from t_start until the clock passes t_end. Events are treated in order of time, canceled ones are ignored. Everybody is first activated once; every activation schedules the individual's next one and begins the requested number of interactions. The partner comes from the population the method names (anyone; the own group; a group drawn with the probabilities, at the current time for the time-dependent method, of the individual's group), is never the individual itself nor someone it is already in contact with through an activation of its own, and there is none exactly when nobody is available. A contact is noted when it begins and recorded once when it ends: who was activated, the partner, the time of the activation that began it and the time it ended. Waiting times and durations are drawn from the own distribution of the activated individual with its parameters at that time. Saved states are copies of the contacts after the events up to the time they are saved under.",
     ["inputs", "histories"], "all populations, groups, methods, parameter functions and draws",
     "The tests look at attributes of a few short random runs; a wrong partner, pool or start time hides in the randomness.",
     [SYN], [("SynthTempNetwork.__init__, put_event, get_new_partner, run", SYN), ("Individual, Distro", SYN)],
     "abstract interpretation of the constructor, of put_event per kind of event, of get_new_partner per method and of the main loop; scheduled events, exclusion sets, pools, written contacts and results as terms over the popped event compared with the definition; the nobody-available condition decided on all populations of five",
     "that the priority queue orders by time and that scipy draws from the named distribution is taken from their documentation.")

prop("P35", "Compact computations give the same transition matrices as full ones",
     "The functions that work only on the nodes with entries (remove_nnz_rowcol, sparse_lapl_expm, sparse_lin_approx, sparse_stationary_trans and the indices compute_lin_inter_transition_matrices hands over) return a SparseStochMat that stands for the matrix the full computation gives. A node that has an entry in its row or in its column is never left out; the part that is computed on, the indices recorded and the full size belong to the same matrix and the same selection; the data, indices and row pointers are those of one matrix stored by rows; the identity is returned only for a matrix without entries; components of a large matrix are weakly connected components of the very part that is exponentiated; the stationary limit is restricted to the same nodes as the matrix, and the interpolation time, t_s, the threshold, the row normalisation and the number of processes arrive unchanged.",
     ["inputs"], "all Laplacians, directed ones included, all sizes, options and kinds of stationary limits given",
     "The tests compare compact and full results on a few small undirected networks, where rows and columns have entries together.",
     [TN], [("remove_nnz_rowcol, sparse_lapl_expm, sparse_lin_approx, sparse_stationary_trans", TN), ("ContTempNetwork.compute_lin_inter_transition_matrices", TN)],
     "abstract interpretation of the compact functions, one case per decided condition; provenance of the five parts of every returned compact matrix; the selecting mask evaluated on all combinations of empty and non-empty row and column",
     "that slicing, expm and connected_components do what their documentation says is not decided; the arithmetic of SparseStochMat itself is P21.")

# --- not addressable statically
prop("N01", "Transition matrices stay row-stochastic within tolerance",
     "Every computed transition matrix has non-negative entries and rows that sum to one up to the requested tolerance.",
     ["inputs"], "every network and time scale", "Numerical; tests sample small networks.",
     [TN, SSM, PX], [("compute_inter_transition_matrices", TN)],
     na="quantifies over floating-point values produced by matrix exponentials, thresholding and renormalisation; no static argument in reach bounds them")
prop("N02", "The community search reaches a good optimum",
     "The partition returned by the community search is close to the best attainable stability.",
     ["inputs"], "every network", "Heuristic quality; tests sample planted partitions.",
     [NC], [("find_louvain_clustering", NC)],
     na="quality of a greedy heuristic depends on runtime values; not decidable from the source (what is decidable, that only non-losing moves are committed, is P13)")
prop("N03", "Matrix exponential and linearised kernels approximate the exact flow",
     "Sparse and parallel matrix exponentials and linear approximations agree with the dense exponential within tolerance.",
     ["inputs"], "every Laplacian and time step", "Numerical accuracy; tests compare a few matrices.",
     [SSM, PX], [("sparse_lapl_expm, compute_subspace_expm, lin_approx_trans_matrix", PX)],
     na="numerical accuracy of expm/inversion/interpolation is a property of floating-point values, outside static analysis")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["_na"]:
            na.append(dict(property=p["id"], reason=p["_na"]))
            continue
        assert os.path.exists(os.path.join(HERE, "sa/checks", p["id"].lower() + ".py")), p["id"]
        checks.append(dict(property=p["id"], quick_cmd="/opt/venv/bin/python check.py %s quick" % p["id"],
                           thorough_cmd="/opt/venv/bin/python check.py %s thorough" % p["id"],
                           technique="static analysis: " + p["_technique"], level="other", level_note=p["_note"]))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import ast\"", checks=checks, not_applicable=na,
             notes="All checks read /repo's sources only (no build, no execution of the analysed code).")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
