#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

prop("C01","Every optimization run ends with exactly one, truthful outcome",
 "Whatever step of the algorithm ends a run (converged, any limit, tiny step, restoration outcome, failed step, evaluation error, internal or user exception), the return code of the optimize call is the documented one for that ending, and a success code is returned only if the convergence test reported success. "
 "If an iterate exists, the user's finalize callback is called exactly once, after all iterations, with the status matching the return code and with the last accepted iterate (point, multipliers, objective); it is not called when the setup failed or the run ended by an internal error. "
 "The internal steps of one iteration are executed in the documented order, and after the ending step none of them is executed again.",
 ["fault_sequences","histories","configurations"],"all sequences of outcomes of the algorithm's component steps (every status and every exception class at every step of the first iterations), all end-to-end runs",
 "The tests contain only runs that end in 'optimal' (plus one or two others); the roughly twenty other endings, and endings at a particular step/iteration, are never produced.",
 ["src/Algorithm/IpIpoptAlg.cpp","src/Interfaces/IpIpoptApplication.cpp","src/Interfaces/IpTNLPAdapter.cpp","src/Algorithm/IpOrigIpoptNLP.cpp"],
 [("main loop and exception mapping","IpoptAlgorithm::Optimize"),("status mapping and finalize","IpoptApplication::call_optimize"),("exception barrier","IpoptApplication::OptimizeNLP")])

prop("C02","Problem callbacks follow the documented protocol",
 "In every run the user's problem callbacks arrive in the documented order (dimensions, then bounds, then starting point, then evaluations; structure requested before values of the same matrix, exactly with the announced dimensions and array sizes; finalize last and nothing after it), and (finite-difference evaluations apart) the flag announcing a new point is false only if the immediately preceding evaluation callback was made with exactly the same variable values. "
 "Between two announcements of a new point no quantity already evaluated successfully is evaluated again (except to compute multipliers of eliminated fixed variables when delivering a point), and without finite differences the reported evaluation counts equal the numbers of evaluations requested from the user.",
 ["inputs","configurations","histories"],"all problems, option settings and sequences of solves; every callback of every run",
 "Test programs ignore the flag and the order; a wrong flag or a wrong evaluation count leaves their results unchanged.",
 ["src/Interfaces/IpTNLPAdapter.cpp","src/Algorithm/IpOrigIpoptNLP.cpp","src/Interfaces/IpTNLP.hpp"],
 [("point bookkeeping and value caches","TNLPAdapter::update_local_x, internal_eval_g, internal_eval_jac_g"),("evaluation counters","OrigIpoptNLP::f_evals etc., SolveStatistics")])

prop("C03","A failed evaluation is contained and never becomes an accepted iterate",
 "If any evaluation callback reports failure or returns a NaN or infinite value (for Jacobian and Hessian values only with check_derivatives_for_naninf), at any call of any run, the run neither crashes nor hangs, the failing point is never reported as an accepted iterate or as the final solution on the strength of values from that failed evaluation, and the run either recovers by shorter steps or ends with the invalid-number (or a restoration/step failure) code. "
 "A value obtained before or from a failed evaluation is never used later as if it were the value at another point, so that evaluating again after a failure gives the value the user's callback returns then.",
 ["fault_sequences","inputs"],"every evaluation kind x every call index x failure mode (false, NaN, Inf), single and repeated failures, over many problems",
 "No test contains a failing evaluation.",
 ["src/Interfaces/IpTNLPAdapter.cpp","src/Algorithm/IpOrigIpoptNLP.cpp","src/Algorithm/IpBacktrackingLineSearch.cpp","src/Algorithm/IpIpoptAlg.cpp"],
 [("Eval_Error","OrigIpoptNLP::f,c,d,...; IpoptAlgorithm::Optimize catch"),("step halving on evaluation errors","BacktrackingLineSearch::DoBacktrackingLineSearch"),("failed-evaluation bookkeeping","TNLPAdapter::internal_eval_g")])

prop("C04","The user sees every iteration once and can stop at any of them",
 "The intermediate callback is called once per iteration, in regular and restoration mode alike, with iteration numbers that start at 0 and never skip or repeat except at the switch between the modes, and with the objective, infeasibilities, barrier parameter and step sizes of the iterate it announces. "
 "If it returns false at any iteration in any mode, the run stops before any further iteration with the user-requested-stop code and delivers the current iterate through finalize.",
 ["histories","crash_points","inputs"],"stop at every iteration of every run, including inside restoration and nested solves",
 "Only one test program stops early, at one iteration of one problem.",
 ["src/Algorithm/IpOptErrorConvCheck.cpp","src/Algorithm/IpRestoConvCheck.cpp","src/Algorithm/IpIpoptAlg.cpp","src/Algorithm/IpOrigIpoptNLP.cpp","src/Interfaces/IpTNLPAdapter.cpp"],
 [("callback and stop","OptimalityErrorConvergenceCheck::CheckConvergence, RestoConvergenceCheck::CheckConvergence")])

prop("C05","Termination codes are certified by the tolerances",
 "The run reports success exactly at the first iterate at which the scaled optimality error and the unscaled dual, primal and complementarity tolerances are all met; it reports the acceptable level only after the prescribed number of consecutive iterates meeting all acceptable tolerances (including the bound on the objective change), and it reports divergence, iteration limit and time limits exactly when their conditions hold, in the documented priority. "
 "The point, multipliers and objective delivered with a success code satisfy these tolerances (relative to the slightly relaxed bounds) when recomputed from the user's own functions.",
 ["inputs","configurations","histories"],"all sequences of iterates (meeting any subset of the criteria) x tolerance settings; all end-to-end solves",
 "The tests check the final value of a few convergent runs with default tolerances; they never have an iterate that meets some but not all criteria.",
 ["src/Algorithm/IpOptErrorConvCheck.cpp","src/Algorithm/IpIpoptCalculatedQuantities.cpp"],
 [("convergence test","OptimalityErrorConvergenceCheck::CheckConvergence, CurrentIsAcceptable"),("error measures","IpoptCalculatedQuantities::curr_nlp_error, unscaled_curr_*")])

prop("C06","Iterates stay strictly inside their bounds and multipliers stay positive",
 "From the first iterate on, every point at which the solver evaluates the user's functions lies strictly between the (slightly relaxed, and up to rounding) variable bounds, variables with equal bounds always have exactly that value when they are eliminated, and every accepted iterate keeps slacks and bound multipliers positive and within the safeguarded neighbourhood of the central path. "
 "The point delivered at the end satisfies the original bounds exactly when honoring them was requested and the relaxed bounds otherwise.",
 ["inputs","configurations"],"all problems, starting points (inside, on, outside the bounds), bound types and option settings",
 "Tests compare final objective values; a step that touches or leaves a bound by rounding or a wrong step bound typically still converges.",
 ["src/Algorithm/IpDefaultIterateInitializer.cpp","src/Algorithm/IpIpoptCalculatedQuantities.cpp","src/Algorithm/IpIpoptAlg.cpp","src/Algorithm/IpBacktrackingLineSearch.cpp","src/Algorithm/IpOrigIpoptNLP.cpp"],
 [("push into the interior","DefaultIterateInitializer::push_variables"),("fraction to the boundary","DenseVector::FracToBoundImpl, BacktrackingLineSearch"),("slack safeguards","CalculateSafeSlack"),("multiplier safeguard","IpoptAlgorithm::correct_bound_multiplier")])

prop("C07","The filter admits a point iff no stored entry dominates it",
 "A pair (objective measure, infeasibility) is acceptable to the filter iff it improves on every stored entry in at least one coordinate, adding an entry removes exactly the entries it dominates, and clearing empties it, for every history of operations. "
 "Decisions within rounding distance apart, in a run every accepted regular trial point satisfies either the Armijo condition (when the switching condition holds) or sufficient progress in objective or infeasibility, is acceptable to the filter built from the margins of all earlier filter-augmenting iterates since the last reset, and the filter is augmented exactly at the accepted points for which the Armijo condition did not decide.",
 ["histories","inputs","configurations"],"all operation histories on the filter, all sequences of trial points offered to the acceptance test, all end-to-end runs",
 "Converging on the test problems rarely exercises rejection by an old filter entry; a filter that forgets or invents entries still converges on them.",
 ["src/Algorithm/IpFilter.cpp","src/Algorithm/IpFilterLSAcceptor.cpp"],
 [("filter set","Filter::Acceptable, Filter::AddEntry"),("acceptance","FilterLSAcceptor::CheckAcceptabilityOfTrialPoint, IsAcceptableToCurrentIterate, UpdateForNextIteration")])

prop("C08","The line search follows its recovery protocol for every acceptance pattern",
 "For every pattern of acceptance decisions, evaluation errors and component failures the line search tries the prescribed decreasing step sizes from the fraction-to-boundary step, with second-order corrections only where allowed, activates, restores and gives up the watchdog exactly as prescribed, and leaves as the trial point one that the acceptance test accepted at that step size (or one explicitly excused: watchdog, tiny step, expected skip). "
 "When no step is acceptable it goes to soft restoration, restoration or ends with the documented failure, and never returns an unaccepted point otherwise or loops forever.",
 ["fault_sequences","histories","configurations"],"all sequences of acceptance answers, evaluation errors and restoration outcomes over consecutive iterations",
 "Watchdog, soft restoration, fallback and tiny-step paths are reached only by particular numerical sequences which no test problem produces.",
 ["src/Algorithm/IpBacktrackingLineSearch.cpp"],
 [("step acceptance loop","BacktrackingLineSearch::FindAcceptableTrialPoint, DoBacktrackingLineSearch"),("watchdog","StartWatchDog, StopWatchDog"),("soft restoration","TrySoftRestoStep")])

prop("C09","Feasibility restoration returns only with a point that justifies it",
 "Restoration is entered only when the line search cannot find an acceptable step, it hands back to the regular algorithm only a point that is acceptable to the filter (or merit function) and reduces the original infeasibility by the required factor, with slacks, multipliers and iteration counters consistently reset, and every other way in which the restoration can end is reported as the documented failure or infeasibility status. "
 "Local infeasibility is reported only at a point that is not feasible within tolerance and that the restoration problem itself found stationary.",
 ["inputs","fault_sequences","histories"],"all outcomes of the restoration solve, all problems that trigger it (infeasible, square, start in restoration)",
 "The tests contain no infeasible problem and no run that returns from restoration.",
 ["src/Algorithm/IpRestoMinC_1Nrm.cpp","src/Algorithm/IpRestoConvCheck.cpp","src/Algorithm/IpRestoFilterConvCheck.cpp"],
 [("restoration driver and status mapping","MinC_1NrmRestorationPhase::PerformRestoration"),("exit test","RestoConvergenceCheck::CheckConvergence, TestOrigProgress")])

prop("C10","The barrier parameter obeys its update rule",
 "In monotone mode the barrier parameter never increases (except to its lower limit when it starts below), is reduced only when the barrier problem is solved to its prescribed accuracy or the tiny-step rule applies, follows the prescribed superlinear formula with its lower limit, and every change resets the line search memory. "
 "In adaptive mode the parameter stays within its minimum and maximum, switches between free and fixed mode exactly by the globalization rule, and the fraction-to-boundary parameter always equals its prescribed function of the barrier parameter (of the optimality error in free mode).",
 ["histories","configurations","inputs"],"all sequences of barrier errors / tiny-step flags / progress answers x option settings; all end-to-end runs",
 "A barrier update that is slightly too early, too small or misses a reset still converges on the test problems.",
 ["src/Algorithm/IpMonotoneMuUpdate.cpp","src/Algorithm/IpAdaptiveMuUpdate.cpp"],
 [("monotone update","MonotoneMuUpdate::UpdateBarrierParameter, CalcNewMuAndTau"),("adaptive update","AdaptiveMuUpdate::UpdateBarrierParameter, CheckSufficientProgress, NewFixedMu")])

prop("C11","Search directions come from a system with correct inertia",
 "Whenever a search direction is accepted, the linear system it solves was factorized with exactly as many negative eigenvalues as there are constraints, using Hessian and constraint perturbations produced by the documented trial sequence (first value, increase and decrease factors, minimum and maximum, memory of the last successful value, delayed detection of structural degeneracy), and a perturbation reported to the user is the one actually used. "
 "If no admissible perturbation gives correct inertia the step computation is reported as failed; singular, wrong-inertia and fatal answers of the linear solver never lead to using its solution.",
 ["fault_sequences","histories","configurations"],"all sequences of linear-solver answers (success, singular, wrong inertia, fatal) over consecutive linear systems",
 "Test problems are convex or nearly so near the path; sequences of singular/wrong-inertia answers and the degeneracy memory are not produced.",
 ["src/Algorithm/IpPDPerturbationHandler.cpp","src/Algorithm/IpPDFullSpaceSolver.cpp"],
 [("perturbation automaton","PDPerturbationHandler"),("solve loop with refinement","PDFullSpaceSolver::SolveOnce, Solve")])

prop("C12","The linear solver wrapper always solves the system it was asked to solve",
 "For every history of solve requests and backend answers, the backend is told the structure once (and again only when it asks), gets values of the current matrix before a factorization whenever the matrix has changed, and solutions are returned only after a factorization of the current matrix succeeded with the requested number of negative eigenvalues; the matrix and right-hand sides given to the backend are the exact symmetric system in the backend's index format, and requests for better quality or scaling changes cause a refactorization. "
 "Conversion of coordinate-format matrices into compressed form keeps every entry, sums duplicates and puts each element at its place for every sparsity pattern.",
 ["histories","fault_sequences","inputs"],"all call histories x backend answers; all sparsity patterns with duplicates and both triangles",
 "Tests use one backend with its one index format on a handful of matrices without call-again or quality-increase answers.",
 ["src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp","src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp","src/Algorithm/IpStdAugSystemSolver.cpp"],
 [("wrapper protocol","TSymLinearSolver::MultiSolve, InitializeStructure, GiveMatrixToSolver"),("format conversion","TripletToCSRConverter::InitializeConverter, ConvertValues"),("assembly","StdAugSystemSolver::CreateAugmentedSystem, AugmentedSystemRequiresChange")])

prop("C13","A cached result is never returned after one of its inputs changed",
 "A lookup succeeds only if a result was stored for exactly the same input objects in exactly their present state and the same scalar inputs (a changed, destroyed or recycled object never matches), and returns the most recently stored such result; within the capacity of the cache a stored and still valid result is found again. "
 "Objects that watch others are told of every change and of destruction exactly while they are attached, in every order of creation, change and destruction.",
 ["histories"],"all histories of create, change, store, look up, invalidate, clear and destroy on caches and their inputs",
 "Tests exercise caches only along the solver's own access pattern, where a stale hit shows as slightly different iterates at most.",
 ["src/Common/IpCachedResults.hpp","src/Common/IpObserver.cpp","src/Common/IpObserver.hpp","src/Common/IpTaggedObject.hpp","src/Common/IpTaggedObject.cpp"],
 [("cache","CachedResults, DependentResult"),("change tags and notification","TaggedObject::ObjectChanged, Subject::Notify, Observer::RequestAttach/RequestDetach")])

prop("C14","Reference-counted objects live exactly as long as they are referenced",
 "An object managed by counted pointers is destroyed exactly once, at the moment its last counted pointer is released or redirected, for every history of construction, copy, assignment (including self-assignment and assignment within a chain of owners), comparison and release. "
 "Raw and counted views of it always refer to the same live object.",
 ["histories"],"all histories of operations over several pointers and objects, including objects that own counted pointers",
 "Tests never count destructions; a leak or double release is invisible or crashes only in unusual orders.",
 ["src/Common/IpSmartPtr.hpp","src/Common/IpReferenced.hpp"],
 [("counting","SmartPtr::SetFromRawPtr_, ReleasePointer_, Referenced::AddRef/ReleaseRef")])

prop("C15","Vector operations and their remembered norms agree with plain arithmetic",
 "After every history of vector operations (set, copy, scale, add, combinations, element-wise operations, component replacement, for homogeneous and non-homogeneous storage and for compound vectors), the elements equal those of plain element-wise arithmetic and every norm, sum, extremum, product or step-to-boundary query equals the value recomputed from the current elements, including queries answered from remembered values. "
 "Read-only operations never change an operand.",
 ["histories","inputs"],"all operation histories on small vectors with mixed storage states and aliasing, all compound nestings",
 "The solver's own runs reach few combinations of representation and remembered values; tests look only at final results.",
 ["src/LinAlg/IpDenseVector.cpp","src/LinAlg/IpVector.hpp","src/LinAlg/IpVector.cpp","src/LinAlg/IpCompoundVector.cpp"],
 [("homogeneous representation","DenseVector::*Impl"),("remembered norms","Vector::Nrm2, Asum, Amax, Sum, SumLogs, Copy, Scal")])

prop("C16","An option read returns what was last validly set, by documented precedence",
 "Reading an option yields the value set for the most specific prefix, else the value set without prefix, else the registered default, with prefixes and listed string values compared regardless of letter case; a set request that is unregistered, of the wrong type or outside the registered range or value list is refused and changes nothing, and a value protected against overwriting stays until the end. "
 "An options text is read token by token with comments and quotes as documented, takes effect in order, and a malformed name, value or type is reported as an invalid option.",
 ["histories","inputs"],"all histories of set, unset, set-if-unset, read, file read over plain and prefixed names; all option texts over the token grammar",
 "Tests set a handful of valid options once.",
 ["src/Common/IpOptionsList.cpp","src/Common/IpRegOptions.cpp","src/Common/IpRegOptions.hpp"],
 [("storage and precedence","OptionsList::find_tag, will_allow_clobber, ReadFromStream, readnexttoken"),("validation","RegisteredOption::IsValid*Setting, string matching")])

prop("C17","Journals receive exactly the messages at or below their level",
 "A message sent for a category and level reaches exactly those journals whose level for that category is at least the message's level, complete and in order; level changes, adding, looking up and deleting journals take effect immediately, and names stay unique. "
 "With printing suppressed or set to level zero nothing is written to the console.",
 ["histories","configurations"],"all histories of journal creation, level setting, message output and deletion",
 "Tests do not inspect output except for the final status line.",
 ["src/Common/IpJournalist.cpp","src/Common/IpJournalist.hpp"],
 [("routing","Journalist::Printf, ProduceOutput, Journal::IsAccepted")])

prop("C18","The problem solved internally is exactly the user's problem",
 "For every combination of bounds (free, one-sided, two-sided, fixed, infinite), constraint types, fixed-variable treatment, index base and sparsity pattern, the internal objective, equality and inequality constraints, Jacobians, Hessian and bounds are exactly the user's, entry by entry, after the documented elimination or conversion of fixed variables, and multipliers and points handed back refer to the right variables and constraints in the user's order. "
 "Problems with inconsistent bounds are rejected, and those with too few degrees of freedom are rejected or solved with relaxed fixed variables, as documented.",
 ["inputs","configurations"],"all small problem shapes x option settings x evaluation points",
 "Test problems have few bound types and no fixed variables with nonlinear coupling; index-map errors need particular mixtures.",
 ["src/Interfaces/IpTNLPAdapter.cpp","src/LinAlg/IpExpansionMatrix.cpp"],
 [("structure mapping","TNLPAdapter::GetSpaces"),("value mapping","TNLPAdapter::Eval_*, ResortX, ResortG, ResortBounds, FinalizeSolution")])

prop("C19","The C interface carries options, callbacks and results faithfully",
 "Creating, configuring, solving and freeing a problem through the C interface behaves for every call history as the same C++ calls do: invalid dimensions or missing callbacks are refused, option setters report whether the option was accepted, every solve passes the user's data pointer and arrays unchanged, starts from the given point, and returns point, multipliers, constraint values and objective of that solve, repeatedly on the same problem. "
 "The intermediate callback's stop request and evaluation failures have the same effect as in C++.",
 ["histories","inputs"],"all call histories over one and several problem handles",
 "One C test program performs one call sequence.",
 ["src/Interfaces/IpStdCInterface.cpp","src/Interfaces/IpStdInterfaceTNLP.cpp"],
 [("C entry points","CreateIpoptProblem, IpoptSolve, AddIpopt*Option"),("adapter","StdInterfaceTNLP")])

prop("C20","Queries for the current iterate return the true current iterate",
 "Whenever the user asks for the current iterate or its violations during a solve (scaled or unscaled, in regular or restoration mode, with eliminated or converted fixed variables), the returned point, multipliers, constraint values and violations are those of the iterate being announced in the user's order and sign convention, consistent with the user's functions at that point; outside a solve the query reports that nothing is available. "
 "Asking any subset of quantities, any number of times, never changes the course of the solve.",
 ["histories","inputs","configurations"],"query subsets at every iteration of runs of all problem shapes and option settings",
 "One test program queries one problem.",
 ["src/Interfaces/IpTNLP.cpp","src/Interfaces/IpTNLPAdapter.cpp"],
 [("queries","TNLP::get_curr_iterate, TNLP::get_curr_violations, TNLPAdapter::ResortX/ResortBounds")])

prop("C21","Repeated solves are reproducible and independent of what ran before",
 "Solving the same problem with the same options gives bit-identical iterates and results, whether on a fresh application object, on one that has solved other problems or failed before, or via re-optimization, and changes of bounds, starting point, options or functions between solves take full effect (on re-optimization, except for options that choose the algorithm's components, such as mu_strategy). "
 "With warm start requested the run begins at the given primal and dual point.",
 ["histories"],"all histories of solves, re-solves, failing solves and option changes on one application object",
 "Most tests perform one solve per process.",
 ["src/Interfaces/IpIpoptApplication.cpp","src/Interfaces/IpTNLPAdapter.cpp","src/Algorithm/IpIpoptData.cpp","src/Algorithm/IpOrigIpoptNLP.cpp","src/Algorithm/IpWarmStartIterateInitializer.cpp"],
 [("state reset","IpoptAlgorithm::InitializeImpl, IpoptData::InitializeDataStructures, TNLPAdapter::GetSpaces"),("warm start","WarmStartIterateInitializer")])

prop("C22","Problem scaling is invisible to the user",
 "With any scaling method, all values passed to and received from the user (points, objective, constraints, gradients, Jacobians, Hessian, multipliers, final result) are in the user's units: the internal problem equals the user's problem multiplied by the scaling factors, and the results are the internal results with the factors undone. "
 "Scaling factors are those given by the user, or those computed from the gradients at the starting point by the documented rule (for repeated Jacobian positions from the single entries).",
 ["inputs","configurations"],"all scaling vectors (including negative objective and absent parts) x evaluation points; gradient-based rule over all small gradients",
 "Test problems are well scaled, so that the factors are one.",
 ["src/Algorithm/IpNLPScaling.cpp","src/Algorithm/IpGradientScaling.cpp","src/Algorithm/IpUserScaling.cpp","src/Algorithm/IpOrigIpoptNLP.cpp","src/LinAlg/IpScaledMatrix.cpp"],
 [("apply/undo","StandardScalingBase"),("gradient-based factors","GradientScaling::DetermineScalingParametersImpl")])

prop("C23","The quasi-Newton approximation satisfies the secant condition or is skipped",
 "With the limited-memory Hessian approximation, after every accepted step the approximation uses exactly the most recent accepted step/gradient-change pairs up to the memory size, satisfies the update formula's secant equation for the newest pair, is skipped or reset exactly by the documented curvature rules, and never uses pairs across a reset, from rejected trial points or from restoration. "
 "For the BFGS formula the approximation stays positive definite.",
 ["histories","inputs","configurations"],"all sequences of step/gradient-difference classes (positive, tiny, negative curvature) x memory sizes x formulas",
 "Tests use exact Hessians nearly everywhere; memory overflow, skip and reset need long particular sequences.",
 ["src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp","src/LinAlg/IpLowRankUpdateSymMatrix.cpp"],
 [("update","LimMemQuasiNewtonUpdater::UpdateHessian, CheckSkippingBFGS, StoreInternalDataBackup")])

prop("C24","Matrix compositions behave as the matrices they stand for",
 "Every matrix type (sparse triplet, dense, diagonal, identity, zero, sum, scaled, transposed, compound, expansion, low-rank) and every nesting of them multiplies vectors, computes row and column maxima, and detects invalid numbers exactly as the full matrix it represents, for all scalar factors including zero and for outputs holding arbitrary old content. "
 "Extraction into coordinate format lists exactly the entries of that matrix.",
 ["inputs","programs"],"all expression trees up to a bounded size over small integer matrices x scalar factors x old contents",
 "The solver uses each type in one or two contexts with factors 0 and 1.",
 ["src/LinAlg","src/LinAlg/TMatrices"],
 [("products","Matrix::MultVectorImpl/TransMultVectorImpl of each class"),("triplet extraction","TripletHelper")])

prop("C25","Reduced and bound-free reformulations answer as the original problem",
 "A problem wrapped to drop selected constraints or variable bounds, to fix variables, or to turn variable bounds into general constraints presents exactly the remaining functions, bounds and sparsity with correct index translation, and hands results back to the original problem in its own numbering. "
 "Solving the wrapped problem therefore never reports a multiplier, constraint value or point under a wrong index.",
 ["inputs","configurations"],"all drop sets over small problems x both index bases; all bound types under bound replacement",
 "No test uses these wrappers.",
 ["src/Interfaces/IpTNLPReducer.cpp","src/Algorithm/IpNLPBoundsRemover.cpp"],
 [("reduction","TNLPReducer"),("bounds to constraints","NLPBoundsRemover")])

prop("C26","The derivative checker flags exactly the wrong derivatives",
 "With derivative checking on, every user derivative (objective gradient, constraint Jacobian incl. structural zeros, Hessian of the Lagrangian) that deviates from the finite-difference value at the test point beyond the tolerance is reported with its correct indices and the count of reported errors is right, correct derivatives are not reported, and the check leaves the following solve unaffected. "
 "Jacobians approximated by finite differences equal the exact ones up to the perturbation error.",
 ["inputs","configurations"],"all positions of a wrong or missing derivative entry in small problems x check modes",
 "No test contains a wrong derivative.",
 ["src/Interfaces/IpTNLPAdapter.cpp"],
 [("checker","TNLPAdapter::CheckDerivatives"),("finite differences","TNLPAdapter::internal_eval_jac_g, initialize_findiff_jac")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
