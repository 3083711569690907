------------------------------ MODULE MainLoop ------------------------------
(* The interior point main loop seen from its components and from the user: *)
(* one action per component call, whose outcome (status, boolean answer or  *)
(* exception) is chosen by the environment.  The spec fixes the order of    *)
(* the calls, the outcome reported to the caller, and what the user's       *)
(* finalize callback receives.  One behaviour may contain several solves    *)
(* with the same application object (optimize, then re-optimize).           *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxIter,   \* iterations per solve
          MaxRuns,   \* solves per behaviour
          Square,    \* as many equality constraints as variables
          SkipFin,   \* option skip_finalize_solution_call
          Rethrow    \* option rethrow_nonipoptexception

VARIABLES pc,        \* next component call, or "end" / "stop"
          iter,      \* iteration counter of the current solve
          cur,       \* [x, y, z]: identities of the current point and multipliers; x = -1: no iterate
          prev,      \* iterate before the attempt to recompute feasibility multipliers
          new,       \* identity given to the next point / multipliers
          status,    \* internal solver status
          ret,       \* code returned by the optimize call
          how,       \* "opt" or "reopt": how the current solve was started
          log,       \* component calls of the current solve with their outcomes
          fin,       \* finalize calls of the current solve
          done       \* observations of finished solves
vars == <<pc, iter, cur, prev, new, status, ret, how, log, fin, done>>

None == [x |-> -1, y |-> -1, z |-> -1]

ConvEnds == {"CONVERGED", "ACCEPTABLE", "MAXITER", "CPUTIME", "WALLTIME", "DIVERGING", "USER_STOP", "FAILED"}

\* exceptions that end the algorithm with a solver status
AlgExc == {"TINY_STEP_DETECTED", "ACCEPTABLE_POINT_REACHED", "LOCALLY_INFEASIBLE",
           "RESTORATION_CONVERGED_TO_FEASIBLE_POINT", "RESTORATION_FAILED", "RESTORATION_MAXITER_EXCEEDED",
           "RESTORATION_CPUTIME_EXCEEDED", "RESTORATION_WALLTIME_EXCEEDED", "RESTORATION_USER_STOP",
           "STEP_COMPUTATION_FAILED", "Eval_Error", "FEASIBILITY_PROBLEM_SOLVED", "TOO_FEW_DOF", "INTERNAL_ABORT"}
\* exceptions that leave the algorithm
AppExc == {"OPTION_INVALID", "DYNAMIC_LIBRARY_FAILURE", "INCONSISTENT_BOUNDS", "OTHER_IPOPT", "bad_alloc",
           "overflow_error", "unknown"}
Exc == AlgExc \cup AppExc
\* raised while the problem is set up, before an iterate exists
SetupExc == AppExc \cup {"TOO_FEW_DOF"}
\* raised while the starting point is completed
InitExc == Exc \ {"RESTORATION_CONVERGED_TO_FEASIBLE_POINT", "FEASIBILITY_PROBLEM_SOLVED"}

StatusOfConv(c) ==
  CASE c = "CONVERGED" -> "SUCCESS"
    [] c = "ACCEPTABLE" -> "STOP_AT_ACCEPTABLE_POINT"
    [] c = "MAXITER" -> "MAXITER_EXCEEDED"
    [] c = "CPUTIME" -> "CPUTIME_EXCEEDED"
    [] c = "WALLTIME" -> "WALLTIME_EXCEEDED"
    [] c = "DIVERGING" -> "DIVERGING_ITERATES"
    [] c = "USER_STOP" -> "USER_REQUESTED_STOP"
    [] OTHER -> "INTERNAL_ERROR"

StatusOfExc(e) ==
  CASE e = "TINY_STEP_DETECTED" -> "STOP_AT_TINY_STEP"
    [] e = "ACCEPTABLE_POINT_REACHED" -> "STOP_AT_ACCEPTABLE_POINT"
    [] e = "LOCALLY_INFEASIBLE" -> "LOCAL_INFEASIBILITY"
    [] e = "RESTORATION_CONVERGED_TO_FEASIBLE_POINT" -> IF Square THEN "FEASIBLE_POINT_FOUND" ELSE "RESTORATION_FAILURE"
    [] e = "RESTORATION_FAILED" -> "RESTORATION_FAILURE"
    [] e = "RESTORATION_MAXITER_EXCEEDED" -> "MAXITER_EXCEEDED"
    [] e = "RESTORATION_CPUTIME_EXCEEDED" -> "CPUTIME_EXCEEDED"
    [] e = "RESTORATION_WALLTIME_EXCEEDED" -> "WALLTIME_EXCEEDED"
    [] e = "RESTORATION_USER_STOP" -> "USER_REQUESTED_STOP"
    [] e = "STEP_COMPUTATION_FAILED" -> "ERROR_IN_STEP_COMPUTATION"
    [] e = "Eval_Error" -> "INVALID_NUMBER_DETECTED"
    [] e = "FEASIBILITY_PROBLEM_SOLVED" -> "FEASIBLE_POINT_FOUND"
    [] e = "TOO_FEW_DOF" -> "TOO_FEW_DEGREES_OF_FREEDOM"
    [] e = "INTERNAL_ABORT" -> "INTERNAL_ERROR"
    [] e = "OPTION_INVALID" -> "INVALID_OPTION"
    [] e = "INCONSISTENT_BOUNDS" -> "LOCAL_INFEASIBILITY"
    [] e \in {"bad_alloc", "overflow_error"} -> "OUT_OF_MEMORY"
    [] OTHER -> "INTERNAL_ERROR"

\* return code of the optimize call for a solver status
RetOfStatus(s) ==
  CASE s = "SUCCESS" -> 0
    [] s = "STOP_AT_ACCEPTABLE_POINT" -> 1
    [] s = "LOCAL_INFEASIBILITY" -> 2
    [] s = "STOP_AT_TINY_STEP" -> 3
    [] s = "DIVERGING_ITERATES" -> 4
    [] s = "USER_REQUESTED_STOP" -> 5
    [] s = "FEASIBLE_POINT_FOUND" -> 6
    [] s = "MAXITER_EXCEEDED" -> -1
    [] s = "RESTORATION_FAILURE" -> -2
    [] s = "ERROR_IN_STEP_COMPUTATION" -> -3
    [] s = "CPUTIME_EXCEEDED" -> -4
    [] s = "WALLTIME_EXCEEDED" -> -5
    [] s = "TOO_FEW_DEGREES_OF_FREEDOM" -> -10
    [] s = "INVALID_NUMBER_DETECTED" -> -13
    [] OTHER -> -199
RetOfExc(e) ==
  CASE e \in AlgExc -> RetOfStatus(StatusOfExc(e))
    [] e = "INCONSISTENT_BOUNDS" -> -11
    [] e \in {"OPTION_INVALID", "DYNAMIC_LIBRARY_FAILURE"} -> -12
    [] e = "OTHER_IPOPT" -> -100
    [] e = "unknown" -> IF Rethrow THEN -1000 ELSE -101     \* -1000: the exception reaches the caller
    [] OTHER -> -102

\* endings for which finalize receives the real point, multipliers and objective
Solution == {"SUCCESS", "MAXITER_EXCEEDED", "CPUTIME_EXCEEDED", "WALLTIME_EXCEEDED", "STOP_AT_TINY_STEP",
             "STOP_AT_ACCEPTABLE_POINT", "LOCAL_INFEASIBILITY", "USER_REQUESTED_STOP", "FEASIBLE_POINT_FOUND",
             "DIVERGING_ITERATES", "RESTORATION_FAILURE", "ERROR_IN_STEP_COMPUTATION"}

Call(c, o) == log' = Append(log, [c |-> c, o |-> o])

Init == /\ pc = "init" /\ iter = 0 /\ cur = None /\ prev = None /\ new = 1 /\ status = "?" /\ ret = -9999
        /\ how = "opt" /\ log = <<>> /\ fin = <<>> /\ done = <<>>

Keep == UNCHANGED <<iter, cur, prev, new, how, fin, done>>

\* --- endings ---------------------------------------------------------------
EndWith(s) == /\ status' = s /\ ret' = RetOfStatus(s) /\ pc' = "end"
Throw(e) ==   \* an exception leaves the component
  /\ status' = StatusOfExc(e) /\ ret' = RetOfExc(e)
  /\ pc' = IF Square /\ e \in {"RESTORATION_CONVERGED_TO_FEASIBLE_POINT", "FEASIBILITY_PROBLEM_SOLVED"}
           THEN "postmult" ELSE "end"

Raise(c, E) == pc = c /\ \E e \in E : Call(c, e) /\ Throw(e) /\ Keep

\* --- components ------------------------------------------------------------
InitIterates ==
  /\ pc = "init"
  /\ \/ /\ Call("init", "ok") /\ pc' = "conv" /\ cur' = [x |-> new, y |-> new, z |-> new] /\ new' = new + 1
        /\ UNCHANGED <<iter, prev, status, ret, how, fin, done>>
     \/ \* reports failure: FAILED_INITIALIZATION
        /\ Call("init", "false") /\ status' = "INTERNAL_ERROR" /\ ret' = -100 /\ pc' = "end"
        /\ cur' = None /\ UNCHANGED <<iter, prev, new, how, fin, done>>
     \/ \* exception before an iterate of this solve exists; that of an earlier solve is gone, too
        \E e \in SetupExc : Call("init", e) /\ Throw(e) /\ cur' = None /\ UNCHANGED <<iter, prev, new, how, fin, done>>
     \/ \E e \in InitExc :
        /\ Call("init", "set+" \o e) /\ Throw(e) /\ cur' = [x |-> new, y |-> new, z |-> new] /\ new' = new + 1
        /\ UNCHANGED <<iter, prev, how, fin, done>>

Conv ==
  /\ pc = "conv"
  /\ \/ iter < MaxIter /\ Call("conv", "CONTINUE") /\ pc' = "hess" /\ UNCHANGED <<status, ret>> /\ Keep
     \/ \E c \in ConvEnds : /\ Call("conv", c) /\ status' = StatusOfConv(c) /\ ret' = RetOfStatus(StatusOfConv(c))
                            /\ pc' = "lastout" /\ Keep
     \/ Raise("conv", Exc)
\* one more line of output after the loop has ended
LastOut == pc = "lastout" /\ Call("out", "ok") /\ pc' = "end" /\ UNCHANGED <<status, ret>> /\ Keep

Hess == pc = "hess" /\ (Raise("hess", Exc) \/ (Call("hess", "ok") /\ pc' = "out" /\ UNCHANGED <<status, ret>> /\ Keep))
Out  == pc = "out" /\ (Raise("out", {"OTHER_IPOPT", "unknown"}) \/ (Call("out", "ok") /\ pc' = "mu" /\ UNCHANGED <<status, ret>> /\ Keep))
Mu ==
  /\ pc = "mu"
  /\ \/ Call("mu", "true") /\ pc' = "dir" /\ UNCHANGED <<status, ret>> /\ Keep
     \/ Call("mu", "false") /\ pc' = "fallback" /\ UNCHANGED <<status, ret>> /\ Keep
     \/ Raise("mu", Exc)
Dir ==
  /\ pc = "dir"
  /\ \/ Call("dir", "true") /\ pc' = "ls" /\ UNCHANGED <<status, ret>> /\ Keep
     \/ Call("dir", "false") /\ pc' = "fallback" /\ UNCHANGED <<status, ret>> /\ Keep
     \/ Raise("dir", Exc)
Fallback ==
  /\ pc = "fallback"
  /\ \/ Call("fallback", "true") /\ pc' = "ls" /\ UNCHANGED <<status, ret>> /\ Keep
     \/ Call("fallback", "false") /\ EndWith("ERROR_IN_STEP_COMPUTATION") /\ Keep
LineSearch ==
  /\ pc = "ls"
  /\ \/ Call("ls", "ok") /\ pc' = "skipped" /\ UNCHANGED <<status, ret>> /\ Keep
     \/ Raise("ls", Exc)
\* the new point becomes current unless the line search was skipped; the iteration counter advances in both cases
Accept ==
  /\ pc = "skipped"
  /\ \E skip \in BOOLEAN :
       /\ Call("skipped", IF skip THEN "true" ELSE "false")
       /\ cur' = IF skip THEN cur ELSE [x |-> new, y |-> new, z |-> new]
       /\ new' = new + 1
  /\ iter' = iter + 1
  /\ pc' = IF Square THEN "conv0" ELSE "conv"
  /\ UNCHANGED <<prev, status, ret, how, fin, done>>

\* square problems: multipliers are recomputed as soon as the point is feasible
Conv0 ==
  /\ pc = "conv0"
  /\ \E c \in {"CONTINUE", "CONVERGED", "MAXITER", "USER_STOP"} :
       Call("conv0", c) /\ pc' = IF c = "CONTINUE" THEN "eqm" ELSE "conv"
  /\ UNCHANGED <<status, ret>> /\ Keep
EqMult ==
  /\ pc = "eqm"
  /\ \/ /\ Call("eqm", "true") /\ pc' = "conv1" /\ prev' = cur /\ cur' = [x |-> cur.x, y |-> 1000 + new, z |-> 0]
        /\ new' = new + 1 /\ UNCHANGED <<iter, status, ret, how, fin, done>>
     \/ Call("eqm", "false") /\ pc' = "conv" /\ UNCHANGED <<status, ret>> /\ Keep
     \/ /\ \E e \in {"Eval_Error", "OTHER_IPOPT"} : Call("eqm", e) /\ Throw(e)
        /\ cur' = [cur EXCEPT !.z = 0] /\ UNCHANGED <<iter, prev, new, how, fin, done>>
Conv1 ==
  /\ pc = "conv1"
  /\ \E c \in {"CONTINUE", "CONVERGED", "ACCEPTABLE", "MAXITER"} :
       /\ Call("conv0", c)
       /\ cur' = IF c \in {"CONVERGED", "ACCEPTABLE"} THEN cur ELSE prev
  /\ pc' = "conv" /\ UNCHANGED <<iter, prev, new, status, ret, how, fin, done>>
PostMult ==
  /\ pc = "postmult"
  /\ \/ Call("eqm", "true") /\ cur' = [x |-> cur.x, y |-> 1000 + new, z |-> 0] /\ new' = new + 1
     \/ Call("eqm", "false") /\ cur' = [cur EXCEPT !.z = 0] /\ UNCHANGED new
  /\ pc' = "end" /\ UNCHANGED <<iter, prev, status, ret, how, fin, done>>

\* --- end of a solve: finalize and return -----------------------------------
Escapes == ret = -1000
Finalizes == /\ ~SkipFin /\ cur.x # -1 /\ ~Escapes
             /\ ret # -199            \* internal error: nothing is delivered
FinRec == [status |-> status, x |-> cur.x,
           y |-> IF status \in Solution THEN cur.y ELSE 0,
           z |-> IF status \in Solution THEN cur.z ELSE 0,
           obj |-> IF status \in Solution THEN cur.x ELSE -1]
HasStats == ret \in {0, 1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -5}
End ==
  /\ pc = "end"
  /\ fin' = IF Finalizes THEN <<FinRec>> ELSE <<>>
  /\ done' = Append(done, [how |-> how, calls |-> log, ret |-> ret, fin |-> fin',
                           iters |-> IF HasStats THEN iter ELSE -1])
  /\ pc' = "stop"
  /\ UNCHANGED <<iter, cur, prev, new, status, ret, how, log>>
NextRun ==
  /\ pc = "stop" /\ Len(done) < MaxRuns
  /\ how' \in {"opt", "reopt"}
  /\ cur' = IF how' = "opt" THEN None ELSE cur
  /\ pc' = "init" /\ iter' = 0 /\ prev' = None /\ status' = "?" /\ ret' = -9999 /\ log' = <<>> /\ fin' = <<>>
  /\ UNCHANGED <<new, done>>

Next == InitIterates \/ Conv \/ LastOut \/ Hess \/ Out \/ Mu \/ Dir \/ Fallback \/ LineSearch \/ Accept
        \/ Conv0 \/ EqMult \/ Conv1 \/ PostMult \/ End \/ NextRun
Spec == Init /\ [][Next]_vars

\* --- properties of the design ----------------------------------------------
OutcomeSet == pc \in {"end", "stop"} => ret # -9999 /\ status # "?"
\* success is returned only if the convergence test said so in the last check
TruthfulSuccess == (pc = "stop" /\ ret = 0) => \E i \in 1..Len(log) : log[i] = [c |-> "conv", o |-> "CONVERGED"]
\* finalize exactly once when there is an iterate and an outcome that carries one
FinalizeOnce == (pc = "stop") => (Len(fin) = IF Finalizes THEN 1 ELSE 0)
FinalizeMatches == (pc = "stop" /\ Len(fin) = 1) => (fin[1].status = status /\ fin[1].x = cur.x)

\* --- emission of complete behaviours for replay -----------------------------
Emit == (pc = "stop" /\ Len(done) = MaxRuns) => PrintT(ToJson(done))
=============================================================================
