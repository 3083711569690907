-------------------------------- MODULE CApi --------------------------------
(* Call histories of the C interface (property C19).  A handle is created   *)
(* (or refused), receives options, scaling factors and an intermediate      *)
(* callback, is solved from arrays that hold the user's own starting point  *)
(* or what a previous solve left there, and is freed.  Every history says   *)
(* what each call has to answer, and for every solve the configuration of   *)
(* the equivalent solve with the C++ interface: the problem, the options    *)
(* that were accepted, the scaling, whether there is a callback and where   *)
(* the contents of the in/out arrays come from.  checks/C19.py runs both;   *)
(* Twin.tla demands the same course of them.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Handles, Probs, MaxSolves, MaxPrep, Defects, Masks, Dist, Extras
VARIABLES hd, prep, h
vars == <<hd, prep, h>>

\* arguments of CreateIpoptProblem that are refused right away; those marked with m>0 are legal for problems without constraints
Refused == {"n0", "nneg", "mneg", "xLnull", "xUnull", "hessneg", "fnull", "gradnull"}
WithM == {"gLnull", "gUnull", "jac0", "gnull", "jacnull"}    \* refused if there are constraints
Legal0 == {"gLnull", "gUnull", "gnull", "jacnull", "jac0"}   \* without constraints these arguments are not needed
WithoutM == {"jac1"}                                         \* a Jacobian entry without constraints
Late == {"hnull", "style2", "styleneg"}                      \* accepted, but IpoptSolve answers Invalid_Problem_Definition
HasCon(p) == p = 1                                           \* problem 1 has constraints, problem 2 has none
CreateOk(p, d) == ~(d \in Refused \/ (d \in WithM /\ HasCon(p)) \/ (d \in WithoutM /\ ~HasCon(p)))

GoodOpt == {"plain", "struct", "warm"}
BadOpt == {"unknown", "type", "range", "choice"}
Arrays == {"x", "lam", "zl", "zu"}
Zero == [k \in Arrays |-> 0]
Dead == [live |-> FALSE, p |-> 0, def |-> "ok", opts |-> [o \in GoodOpt |-> 0], scal |-> 0, cb |-> FALSE, src |-> Zero, gen |-> 0, solved |-> FALSE]
Init == hd = [a \in Handles |-> Dead] /\ prep = 0 /\ h = <<>>
NSolves == Len(SelectSeq(h, LAMBDA o : o.op = "solve"))
Log(o) == h' = Append(h, o)
Upd(a, r) == hd' = [hd EXCEPT ![a] = r]

Create(a, p, d) == /\ ~hd[a].live /\ (d = "jac1" => ~HasCon(p))
                   /\ Upd(a, IF CreateOk(p, d) THEN [Dead EXCEPT !.live = TRUE, !.p = p, !.def = d, !.gen = hd[a].gen + 1] ELSE hd[a])
                   /\ Log([op |-> "create", a |-> a, p |-> p, d |-> d, ok |-> CreateOk(p, d)]) /\ prep' = prep + 1
Free(a) == /\ hd[a].live /\ hd[a].solved /\ Upd(a, [Dead EXCEPT !.gen = hd[a].gen]) /\ Log([op |-> "free", a |-> a]) /\ prep' = prep + 1
Option(a, o) == /\ hd[a].live /\ prep' = prep + 1
                /\ LET v == 1 - hd[a].opts[o] IN Upd(a, [hd[a] EXCEPT !.opts[o] = v]) /\ Log([op |-> "opt", a |-> a, o |-> o, v |-> v, ok |-> TRUE])
\* a refused option leaves everything as it was
BadOption(a, o) == hd[a].live /\ UNCHANGED hd /\ Log([op |-> "opt", a |-> a, o |-> o, v |-> 0, ok |-> FALSE]) /\ prep' = prep + 1
Scaling(a, v) == hd[a].live /\ hd[a].scal # v /\ Upd(a, [hd[a] EXCEPT !.scal = v]) /\ Log([op |-> "scal", a |-> a, v |-> v, ok |-> TRUE]) /\ prep' = prep + 1
Callback(a) == hd[a].live /\ Upd(a, [hd[a] EXCEPT !.cb = ~@]) /\ Log([op |-> "cb", a |-> a, v |-> ~hd[a].cb, ok |-> TRUE]) /\ prep' = prep + 1
File(a, good) == hd[a].live /\ UNCHANGED hd /\ Log([op |-> "file", a |-> a, good |-> good, ok |-> good]) /\ prep' = prep + 1
\* no iterate outside of a solve
Query(a) == hd[a].live /\ UNCHANGED hd /\ Log([op |-> "cur", a |-> a, ok |-> FALSE]) /\ prep' = prep + 1

\* mask: the arrays that are not given; start: "own" data or what the arrays of the previous solves contain
Solve(a, start, mask, d) ==
  LET s == hd[a]
      refused == s.def \in Late \/ "x" \in mask
      src == IF start = "own" THEN Zero ELSE s.src
      me == NSolves + 1
  IN /\ s.live
     /\ IF start = "last" THEN s.src["x"] # 0 ELSE TRUE
     /\ IF refused THEN d = "none" /\ start = "own" ELSE TRUE
     /\ Upd(a, [s EXCEPT !.solved = TRUE, !.src = [k \in Arrays |-> IF refused \/ k \in mask THEN src[k] ELSE me]])
     /\ Log([op |-> "solve", a |-> a, p |-> s.p, opts |-> s.opts, scal |-> s.scal, cb |-> s.cb, src |-> src, mask |-> mask, d |-> d, gen |-> s.gen, start |-> start,
             late |-> s.def, refused |-> refused])
     /\ prep' = 0

Next == /\ NSolves < MaxSolves
        /\ \/ /\ prep < MaxPrep
              /\ \E a \in Handles :
                   \/ \E p \in Probs, d \in Defects : Create(a, p, d)
                   \/ Free(a)
                   \/ \E o \in GoodOpt : Option(a, o)
                   \/ (Extras /\ \E o \in BadOpt : BadOption(a, o))
                   \/ \E v \in 0..4 : Scaling(a, v)
                   \/ Callback(a)
                   \/ (Extras /\ \E g \in BOOLEAN : File(a, g))
                   \/ (Extras /\ Query(a))
           \/ \E a \in Handles, st \in {"own", "last"}, mask \in Masks, d \in Dist : Solve(a, st, mask, d)
Spec == Init /\ [][Next]_vars

\* handles do not know of each other; a solve uses only what was set on its handle since it was created
Canon == <<[a \in Handles |-> [hd[a] EXCEPT !.gen = IF @ > 1 THEN 2 ELSE @, !.src = [k \in Arrays |-> IF hd[a].src[k] = 0 THEN 0 ELSE 1]]], prep, IF h = <<>> THEN "" ELSE h[Len(h)].op, NSolves>>
EmitT == IF h'[Len(h')].op # "create" \/ ~h'[Len(h')].ok THEN PrintT(ToJson(h')) ELSE TRUE
EmitH == (NSolves = MaxSolves) => PrintT(ToJson(h))
\* results of a solve only go to arrays that were given
MaskOk == \A q \in 1..Len(h) : h[q].op = "solve" /\ h[q].start = "last" => \A k \in Arrays : h[q].src[k] < q
=============================================================================
