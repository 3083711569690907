------------------------------- MODULE Deriv -------------------------------
(* The derivative checker (C26), as a trace specification.  cfg.tab holds   *)
(* the user's functions and derivatives at the test point (1) and at the    *)
(* points perturbed in each variable (2..n+1); events are the lines of the  *)
(* report: line (fl: marked as wrong, k: "f" gradient, "g" Jacobian, "h"    *)
(* Hessian; r: constraint, -1 objective; a, b: variables; ex: user's value, *)
(* ap: finite difference; v: position is in the user's structure) and done  *)
(* (number of errors, -1: "no errors").                                     *)
EXTENDS TraceKit
VARIABLES t, i, s

Pos(c) ==   \* every position the test covers, counted from 0
  LET V == 0..(c.n - 1)
      lo == Max2(0, c.first)
      F == IF c.mode \in {"first-order", "second-order"} THEN {<<"f", -1, a, 0>> : a \in {v \in V : v >= lo}} \cup {<<"g", r, a, 0>> : r \in 0..(c.m - 1), a \in {v \in V : v >= lo}} ELSE {}
      H == IF c.mode \in {"second-order", "only-second-order"} THEN {<<"h", r, a, b>> : r \in {q \in -1..(c.m - 1) : q >= Max2(-1, c.first)}, a \in V, b \in V} ELSE {}
  IN F \cup H
Sum(S) == DSumSeq(S)
\* entries of the user's matrix at a position, in order
JAt(c, r, a) == SelectSeq([k \in 1..Len(c.jac) |-> k], LAMBDA k : c.jac[k] = <<r, a>>)
HAt(c, a, b) == SelectSeq([k \in 1..Len(c.hes) |-> k], LAMBDA k : c.hes[k] = <<a, b>> \/ c.hes[k] = <<b, a>>)
Vals(S, v) == [k \in 1..Len(S) |-> v[S[k]]]
Ref(c) == c.tab[1]
Per(c, a) == c.tab[a + 2]
Step1(c, a) == DMul(c.pert, DMax("1", DAbs(Ref(c).x[a + 1])))
GradOf(c, e, r, b) == IF r = -1 THEN e.df[b + 1] ELSE Sum(Vals(JAt(c, r, b), e.jv))
Exact(c, p) == CASE p[1] = "f" -> Ref(c).df[p[3] + 1]
                 [] p[1] = "g" -> Sum(Vals(JAt(c, p[2], p[3]), Ref(c).jv))
                 [] p[1] = "h" -> Sum(Vals(HAt(c, p[3], p[4]), Ref(c).hv[p[2] + 2]))
Approx(c, p) == LET h == Step1(c, p[3]) e == Per(c, p[3]) r == Ref(c) IN
               CASE p[1] = "f" -> DDiv(DSub(e.f, r.f), h)
                 [] p[1] = "g" -> DDiv(DSub(e.g[p[2] + 1], r.g[p[2] + 1]), h)
                 [] p[1] = "h" -> DDiv(DMul("1.5", DSub(GradOf(c, e, p[2], p[4]), GradOf(c, r, p[2], p[4]))), h)
InStruct(c, p) == CASE p[1] = "f" -> FALSE [] p[1] = "g" -> JAt(c, p[2], p[3]) # <<>> [] p[1] = "h" -> HAt(c, p[3], p[4]) # <<>>
\* is the position wrong?  "U": too close to the threshold, or no finite difference available
Wrong(c, p) ==
  LET ex == Exact(c, p) ap == Approx(c, p) IN
  IF ~DFinite(ap) THEN "U"
  ELSE IF ~DFinite(ex) THEN "Y"
  ELSE LET rel == DDiv(DAbs(DSub(ap, ex)), DMax(DAbs(ap), c.tol)) IN
       IF DLe(DMul(c.tol, "1.000001"), rel) THEN "Y" ELSE IF DLt(rel, DMul(c.tol, "0.999999")) THEN "N" ELSE "U"

Start(c) == [seen |-> {}, marked |-> 0]
Near(a, b) == IF DFinite(a) /\ DFinite(b) THEN DNear(a, b, "1e-9", "1e-12") ELSE DEq(a, b) \/ (a = "NaN" /\ b = "NaN")
Check(c, m, e) ==
  IF e.e = "line" THEN
    LET p == <<e.k, e.r, e.a, e.b>> IN
    IF p \notin Pos(c) THEN << <<"C26.position", FALSE>> >>
    ELSE << <<"C26.once", p \notin m.seen>>,
            <<"C26.user_value", Near(e.ex, Exact(c, p))>>,
            <<"C26.finite_difference", Near(e.ap, Approx(c, p))>>,
            <<"C26.structure_mark", e.v = InStruct(c, p)>>,
            <<"C26.marked_iff_wrong", CASE Wrong(c, p) = "Y" -> e.fl [] Wrong(c, p) = "N" -> ~e.fl [] OTHER -> TRUE>>,
            <<"C26.only_asked", e.fl \/ c.all>> >>
  ELSE IF e.e = "done" THEN
    << <<"C26.every_error_reported", \A p \in Pos(c) \ m.seen : Wrong(c, p) # "Y" /\ ~c.all>>,
       <<"C26.count", e.n = m.marked>> >>
  ELSE IF e.e = "ref" THEN
    << <<"C26.test_point", \A k \in 1..c.n : LET x == Ref(c).x[k] IN
           IF DLe(c.xl[k], c.x0[k]) /\ DLe(c.x0[k], c.xu[k]) THEN DLe(DMax(c.xl[k], DSub(c.x0[k], c.radius)), x) /\ DLe(x, DMin(c.xu[k], DAdd(c.x0[k], c.radius))) ELSE TRUE>>,
       <<"C26.perturbed_point", \A a \in 0..(c.n - 1) : DEq(Per(c, a).x[a + 1], DAdd(Ref(c).x[a + 1], Step1(c, a)))>> >>
  ELSE << <<"C26.report_complete", FALSE>> >>
Step(c, m, e) == IF e.e = "line" THEN [seen |-> m.seen \cup {<<e.k, e.r, e.a, e.b>>}, marked |-> m.marked + (IF e.fl THEN 1 ELSE 0)] ELSE m

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
