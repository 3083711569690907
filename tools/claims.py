NA = {}
T["C01"] = (REPLAY, "Exhaustive over all outcome sequences of the algorithm's components for up to 2 iterations (3 thorough) and several solves per application, each replayed in the real IpoptApplication/IpoptAlgorithm with scripted components. Trusts the C++ compiler and the driver.")
T["C13"] = (REPLAY, "Exhaustive transition coverage of the abstract cache/observer state graph (2 objects, capacity -1..2, 2 entries) plus random long histories, replayed under AddressSanitizer.")
T["C14"] = (REPLAY, "Exhaustive transition coverage for 2 pointers x 2 objects (3x3 thorough) incl. owning chains and all pointer conversions, replayed under AddressSanitizer.")
T["C16"] = (REPLAY, "Exhaustive over option-list states of small name/prefix sets, all option texts of the token grammar up to 4-6 pieces, random long histories.")
T["C17"] = (REPLAY, "Exhaustive transition coverage for 2 journals, random long histories for 4 journals of all kinds incl. long messages; under AddressSanitizer.")
T["C15"] = (REPLAY, "All single operations with all coefficient/storage combinations on 3 vectors (preceded and followed by all queries), random histories on dense, 2-part, 3-part (one empty) and nested compound vectors, under AddressSanitizer with adversarially filled fresh memory. Numbers compared with relative tolerance 1e-9.")
T["C24"] = (REPLAY, "Random expression trees of all matrix types (depth 0-2, thorough 0-3) with integer data; every product, maximum, validity query and coordinate extraction compared with the dense matrix of the specification, under AddressSanitizer. Maxima of sums/scaled/low-rank matrices and extraction of dense types are documented as unavailable and excluded.")
T["C01"] = (BOTH, "Exhaustive over all outcome sequences of the algorithm's components for up to 2 iterations (3 thorough) and several solves per application, each replayed in the real IpoptApplication/IpoptAlgorithm with scripted components; whole runs (random problems, options, evaluation faults, user exceptions, stops, re-solves) recorded and validated against the protocol specification. Trusts the C++ compiler and the driver.")
T["C02"] = (TRACE, "Every callback of some thousand whole runs (random problems of 8 kinds, options, fixed variables, scaling, finite differences, limited memory, warm starts, re-optimization, evaluation faults) must be a transition of the protocol specification; the counts it reports are compared with the specification's own.")
T["C03"] = (TRACE, "Whole runs with evaluation failures, NaN and infinite values placed at random calls of random callbacks; each recorded run must be a behaviour of the protocol specification, and no run may crash or hang (sanitizer build in the thorough tier). Non-finite derivative values only with check_derivatives_for_naninf, as documented.")
T["C04"] = (TRACE, "Whole runs with a stop requested at a random iteration in either mode; each recorded run must be a behaviour of the protocol specification (numbering, stop, delivery).")
T["C04"] = (TRACE, "Whole runs with a stop requested at a random iteration in either mode; each recorded run must be a behaviour of the protocol specification (numbering, stop, delivery), and the announced numbers must be those of the iterate (computed from the user's own functions and the internal iterate).")
T["C05"] = (TRACE, "At every regular iterate of some thousand whole runs with varied tolerances the errors are recomputed by the specification from the user's own functions and the internal multipliers, and the convergence decision (success, acceptable level, divergence, limit, user stop, in their order) is derived from them: the run must end exactly as and when the specification says. Delivered points are certified from the user's functions. Time limits are decided by the scripted loop of C01.")
T["C06"] = (TRACE, "Every evaluated point, every accepted regular and restoration iterate and every final point of some thousand whole runs (random bounds, fixed variables, honor_original_bounds, relaxation, scaling, algorithm options) must satisfy the specification's bounds, positivity and neighbourhood clauses. Runs whose numbers overflow (>1e100) are not judged.")
T["C20"] = (TRACE, "All queries (scaled and unscaled, regular and restoration, all treatments of fixed variables) at every iterate of some thousand whole runs, compared with the specification's formulas over the user's own functions at the reported point; twin runs with and without (partial) queries must show the same course (self-composition).")
T["C22"] = (TRACE, "Every internal iterate of some thousand whole runs with user or gradient-based scaling must equal the user's problem multiplied by the factors (given, or computed by the specification from the gradients at the starting point), and all scaled queries the unscaled ones times the factors.")
T["C18"] = (TRACE, "The real TNLPAdapter is driven through its NLP interface on every combination of bound types, constraint types and treatments of fixed variables up to 2 variables and 2 constraints plus random larger problems (sanitizer build): all internal spaces, bounds, functions, derivatives, starting points and final conversions must be the specification's. Whole runs: at every iterate the internal problem must be the user's one under the conversion.")
T["C07"] = (BOTH, "Filter class: all reachable filter contents over small coordinate sets (dimension 1-3, 4 thorough) with every query/insertion/clearing, long random histories incl. infinities and denormals, replayed on class Filter. Whole runs: every acceptance test, filter augmentation, reset and minimal step of regular and restoration line searches must be the one the specification derives from the recorded values; the values themselves are recomputed from the user's functions. Decisions within rounding distance are not judged.")
T["C08"] = (BOTH, "The real IpoptAlgorithm and BacktrackingLineSearch between scripted components: all decision sequences (acceptance, evaluation errors, corrections, restoration outcomes, direction kinds, barrier updates) for the first decisions under 26 option settings plus long random and periodic ones, each run validated against the line search automaton of the specification, which also recomputes step sizes and the point handed over. Whole runs of both levels (regular and restoration) are validated against the same automaton.")
T["C21"] = (BOTH, "All histories of up to 3 solves of one application (optimize/re-optimize, changed start, multipliers, bounds, objective, options; stopped, faulty and refused solves) plus random histories of two applications and two problems, generated by TLC with the key each solve must be a function of; executed on the real application, every pair of solves with equal key must show the same course, bit for bit, also as on a fresh application. Warm starts: the first iterate of random whole runs is recomputed by the specification from what the user gave.")
T["C12"] = (REPLAY, "The real TSymLinearSolver is driven between a scripted backend and a scripted scaling method through all histories (to the depth bound) of solve requests, matrix changes, quality requests and backend answers generated by TLC, in all matrix formats; the specification predicts every call of the backend, the matrix and right-hand sides it is given and the answer. The augmented system assembled by StdAugSystemSolver is decided the same way for all histories of changed matrices, weights and shifts; coordinate-to-compressed-row conversion for all small sparsity patterns.")
T["C11"] = (REPLAY, "The real PDFullSpaceSolver and PDPerturbationHandler over a scripted augmented-system solver: all sequences of factorization outcomes (success, singular, wrong inertia, failure) and solution accuracies over the first matrices, for some hundred option settings, generated by TLC; the specification predicts every factorization request (its perturbation, bit for bit), every refinement, the quality requests, the answer and the solution handed out, and shows by temporal logic that the control loop ends. Solutions are computed for an exact model system of one variable per block.")
T["C10"] = (BOTH, "The real MonotoneMuUpdate and AdaptiveMuUpdate between scripted iterates, line search and oracles: all sequences of the first two (three) updates over classes of errors, tiny-step flags, refused steps and oracle answers under the globalization rules and levels, plus random long ones with random options; and every update of random whole runs of both levels. The specification recomputes errors, quality measures, references, filter and limits and derives the new parameters, the mode and the reset of the line search. Quality-function and probing oracle formulas are not specified; decisions within rounding distance are not judged.")
T["C09"] = (TRACE, "Every restoration phase of some thousand whole runs (nested ones excluded by the algorithm itself) with random options, faults and stops is recorded: what it starts from, the starting point of the inner problem (recomputed by the specification: split of the residuals, multipliers, penalty), its functions and scaling, every decision of the inner convergence test, how it ended and what is handed back. Decisions within rounding distance, and runs whose numbers overflow, are not judged.")
T["C26"] = (TRACE, "The real TNLPAdapter with derivative checker and finite-difference modes is driven on random and systematic problems with correct and planted wrong derivatives, structures and scalings: the reported errors must be exactly those the specification finds by comparing the user's derivatives with the finite differences it computes from the user's functions, points must lie where they are allowed, and finite-difference Jacobians/gradients must equal the specification's. Function values that are not finite at shifted points are not judged.")
T["C25"] = (TRACE, "TNLPReducer and NLPBoundsRemover are driven on all drop sets of problems up to 2 variables and 2 constraints (3 and 3 thorough) in both index bases and on random larger ones, under AddressSanitizer: the wrapped problem must be the one the specification writes down (functions, derivatives, bounds, scaling, starting points, final results). Whole solves of wrapped problems are compared event by event with solves of the problem written down by hand (self-composition); from the first rounding difference on, or when numbers exceed 1e10, the courses are no longer compared.")
T["C19"] = (BOTH, "Histories of the C interface (create with valid and invalid arguments, missing callbacks, options of all types, scaling, callbacks, solves with every choice of result arrays, iterate and violation queries in and outside callbacks, repeated solves, free) generated from the specification at random and replayed on the real C functions under AddressSanitizer; the results of every call and every callback's arguments are judged, and each solve is compared with the C++ interface on the same problem by self-composition.")
