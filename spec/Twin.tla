-------------------------------- MODULE Twin --------------------------------
(* Self-composition: two recorded executions that start from the same state *)
(* and receive the same inputs must show the same behaviour (properties     *)
(* C20: queries are without effect, C21: solves are reproducible, C19: the  *)
(* C interface behaves as the C++ interface).  A trace holds the two        *)
(* executions zipped: event k is [l |-> k-th event of the first run,        *)
(* r |-> k-th event of the second run], a missing event being <<>>.         *)
EXTENDS TraceKit
VARIABLES t, i, s
Start(c) == [differ |-> FALSE]
\* after the first difference the executions are no longer comparable
\* C25: what the user of a wrapped problem is told, in the terms of the problem written down by hand:
\* the left problem drops the constraints c.drop, the right one has no variable bounds but constraints
\* for the lower bounds of c.lb and the upper bounds of c.ub after its c.m other ones
In(k, S) == \E q \in 1..Len(S) : S[q] = k
Pick(v, S) == [q \in 1..Len(S) |-> v[S[q]]]
Left(c, e) == IF ~Has(c, "drop") \/ ~Has(e, "g") THEN e
              ELSE LET K == SelectSeq([k \in 1..Len(e.g) |-> k], LAMBDA k : ~In(k, c.drop)) IN [e EXCEPT !.g = Pick(e.g, K), !.lam = Pick(e.lam, K)]
\* multiplier of the bound of variable k: component p of the list S is constraint off + p (other variables are fixed)
Fold(e, S, off, k, neg, z) == LET P == {p \in 1..Len(S) : S[p] = k} IN
  IF P = {} THEN z ELSE LET v == e.lam[off + (CHOOSE p \in P : TRUE)] IN IF neg THEN DNeg(v) ELSE v
Right(c, e) == IF ~Has(c, "lb") \/ ~Has(e, "g") THEN e
               ELSE [e EXCEPT !.g = SubSeq(e.g, 1, c.m), !.lam = SubSeq(e.lam, 1, c.m), !.zl = [k \in 1..Len(e.zl) |-> Fold(e, c.lb, c.m, k, TRUE, e.zl[k])], !.zu = [k \in 1..Len(e.zu) |-> Fold(e, c.ub, c.m + Len(c.lb), k, FALSE, e.zu[k])]]
\* the two are computed by different sums: equal up to rounding, after which the executions are no longer comparable
AbsN(v) == DAmaxSeq(v)
Nr(a, b, sc) == a = b \/ DNear(a, b, "1e-7", DMul("1e-7", sc))
NrSeq(a, b, sc) == Len(a) = Len(b) /\ \A q \in 1..Len(a) : Nr(a[q], b[q], sc)
Wrapped(c) == Has(c, "drop") \/ Has(c, "lb")
FinalNear(l, r) ==
  LET sc == DMax("1", DMul(AbsN(l.x), AbsN(l.x))) sl == DMax(DMax("1", AbsN(l.lam)), DMax(AbsN(l.zl), AbsN(l.zu)))
  IN l.st = r.st /\ NrSeq(l.x, r.x, sc) /\ (IF l.st >= 12 THEN TRUE ELSE NrSeq(l.g, r.g, DMax(sc, AbsN(l.g))))   \* after invalid numbers, options etc. values of the constraints may be missing
     /\ NrSeq(l.lam, r.lam, sl) /\ NrSeq(l.zl, r.zl, sl) /\ NrSeq(l.zu, r.zu, sl) /\ Nr(l.obj, r.obj, sc)
IterNear(l, r) == /\ l.mode = r.mode /\ l.it = r.it /\ l.ls = r.ls /\ l.ret = r.ret
                  /\ \A f \in {"obj", "pr", "mu", "dn", "ad", "ap"} : Nr(l[f], r[f], "1")
Equal(c, e) == LET l == Left(c, e.l) r == Right(c, e.r) IN
  IF Wrapped(c) /\ Has(l, "g") /\ Has(r, "g") THEN FinalNear(l, r) ELSE l = r
Close(c, e) == LET l == Left(c, e.l) r == Right(c, e.r) IN
  IF Wrapped(c) /\ Has(l, "mode") /\ Has(r, "mode") THEN IterNear(l, r) ELSE FALSE
\* runs whose numbers explode are not compared further: rounding errors decide their course
Wild(c, e) == Wrapped(c) /\ \E v \in {e.l, e.r} : Has(v, "mode") /\ (~DLe(v.du, "1e10") \/ ~DLe(v.pr, "1e10") \/ ~DLe(DAbs(v.obj), "1e10"))
Same(c, e) == Wild(c, e) \/ Equal(c, e) \/ Close(c, e)
Check(c, m, e) == << <<c.clause, m.differ \/ Same(c, e)>>,
                     <<c.clause \o "_dropped", IF Has(c, "drop") /\ Has(e.l, "g") THEN \A q \in 1..Len(c.drop) : DEq(e.l.lam[c.drop[q]], "0") ELSE TRUE>> >>
Step(c, m, e) == [differ |-> m.differ \/ Wild(c, e) \/ ~Equal(c, e)]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
