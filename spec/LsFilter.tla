------------------------------ MODULE LsFilter ------------------------------
(* The filter acceptance rule of the line search (C07), as a trace          *)
(* specification.  Level 0 is the regular algorithm, level 1 restoration.   *)
(* References (th, phi, g) are infeasibility, barrier objective and slope   *)
(* at the point the line search starts from; F holds every entry added      *)
(* since the last clearing (that dominated entries may be dropped without   *)
(* effect is the invariant NoLoss of Filter.tla).                           *)
(* Decisions within rounding distance are undetermined ("U"): either        *)
(* outcome is allowed and the state follows the code.                       *)
(*                                                                          *)
(* events: fl.new (options), fl.init, fl.begin/fl.check (acceptance test of *)
(* a trial point with its values), fl.update (trial point taken), fl.amin,  *)
(* fl.wdstart/fl.wdstop, fl.prepresto, fl.reset; p: what the filter answers *)
(* for some probing pairs afterwards                                        *)
EXTENDS TraceKit
VARIABLES t, i, s

T3(b) == IF b THEN "T" ELSE "F"
Not3(a) == IF a = "T" THEN "F" ELSE IF a = "F" THEN "T" ELSE "U"
And3(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" /\ b = "T" THEN "T" ELSE "U"
Or3(a, b) == Not3(And3(Not3(a), Not3(b)))
If3(a, b, c) == IF a = "T" THEN b ELSE IF a = "F" THEN c ELSE IF b = c THEN b ELSE "U"
\* a <= b, undetermined within tol
Le3(a, b, tol) == IF ~DFinite(a) \/ ~DFinite(b) \/ ~DFinite(tol) THEN "U" ELSE IF DLe(DAdd(a, tol), b) THEN "T" ELSE IF DLt(DAdd(b, tol), a) THEN "F" ELSE "U"
Eps == "2.220446049250313e-16"
\* the relaxed comparison of the algorithm: lhs <= rhs up to 10 eps |base|
CompareLe(l, r, base, sc) == Le3(DSub(l, r), DMul(DMul("10", Eps), DAbs(base)), DMul("4e-15", DAdd(DAdd(DAbs(l), DAbs(r)), sc)))
Consistent(b, d) == d # T3(~b)

----------------------------------------------------------------------------
\* slope as used: a tiny positive slope at a feasible point counts as descent
Slope(r) == IF DEq(r.th, "0") /\ DLt("0", r.g) /\ DLt(r.g, DMul("100", Eps)) THEN DNeg(Eps) ELSE r.g
\* switching condition
FType(o, r, a) == LET g == Slope(r) IN
  IF ~DLt(g, "0") THEN "F"
  ELSE LET l == DMul(a, DPow(DNeg(g), o.s_phi)) u == DMul(o.delta, DPow(r.th, o.s_theta)) IN
       Not3(Le3(l, u, DMul("1e-13", DAdd(DAbs(l), DAbs(u)))))
Armijo(o, r, a, phi) == CompareLe(DSub(phi, r.phi), DMul(DMul(o.eta_phi, a), Slope(r)), r.phi, DAdd(DAbs(phi), DAbs(r.phi)))
\* sufficient progress in infeasibility or objective, the objective not growing too fast
TooFast(o, r, phi) == LET d == DSub(phi, r.phi) b == IF DLt("10", DAbs(r.phi)) THEN DDiv(DLog(DAbs(r.phi)), DLog("10")) ELSE "1" IN
  IF ~DLt("0", d) THEN "F" ELSE Not3(Le3(DDiv(DLog(d), DLog("10")), DAdd(o.obj_max_inc, b), "1e-9"))
Progress(o, r, th, phi) ==
  Or3(CompareLe(th, DMul(DSub("1", o.gamma_theta), r.th), r.th, "0"),
      CompareLe(DSub(phi, r.phi), DMul(DNeg(o.gamma_phi), r.th), r.phi, DAdd(DAbs(phi), DAbs(r.phi))))
AccIter(o, r, th, phi) == And3(Not3(TooFast(o, r, phi)), Progress(o, r, th, phi))
\* an entry, with the sizes of the numbers it was computed from
Entry(o, r) == [phi |-> DSub(r.phi, DMul(o.gamma_phi, r.th)), th |-> DMul(DSub("1", o.gamma_theta), r.th), sc |-> DAdd(DAbs(r.phi), DMul(o.gamma_phi, r.th))]
Better(e, th, phi) == Or3(Le3(phi, e.phi, DMul("1e-15", e.sc)), Le3(th, e.th, DMul("1e-15", e.th)))
RECURSIVE AccF(_, _, _)
AccF(F, th, phi) == IF F = <<>> THEN "T" ELSE LET b == Better(F[1], th, phi) IN IF b = "F" THEN "F" ELSE And3(b, AccF(Tail(F), th, phi))
Init0(m, r) ==   \* upper and lower infeasibility limits are fixed at the first test
  [m EXCEPT !.max = IF @ = "none" THEN DMul(m.o.theta_max_fact, DMax("1", r.th)) ELSE @,
            !.min = IF @ = "none" THEN DMul(m.o.theta_min_fact, DMax("1", r.th)) ELSE @]

\* <<decision on progress, decision of the filter, too infeasible>>
Decide(m, a, th, phi) ==
  LET r == m.ref o == m.o
      big == IF m.max = "?" THEN "U" ELSE Not3(Le3(th, m.max, DMul("1e-14", DAbs(th))))
      sw == IF ~DLt("0", a) THEN "F" ELSE And3(FType(o, r, a), IF m.min = "?" THEN "U" ELSE Le3(r.th, m.min, DMul("1e-14", r.th)))
      prog == IF ~DFinite(phi) \/ ~DFinite(th) THEN "U" ELSE If3(sw, Armijo(o, r, a, phi), AccIter(o, r, th, phi))
  IN <<prog, AccF(m.F, th, phi), big>>

ProbesOK(m, ps) == \A k \in 1..Len(ps) : LET p == ps[k] IN IF ~DFinite(p.phi) \/ ~DFinite(p.th) THEN TRUE ELSE Consistent(p.ok, AccF(m.F, p.th, p.phi))

----------------------------------------------------------------------------
New(e) == [o |-> e, F |-> <<>>, max |-> "none", min |-> "none", ref |-> [th |-> "0", phi |-> "0", g |-> "0"], wd |-> [th |-> "0", phi |-> "0", g |-> "0"],
           last |-> "F",    \* last rejection was due to the filter
           cnt |-> 0,       \* successive iterations with such a rejection
           inb |-> FALSE, rs |-> FALSE, nres |-> 0, known |-> TRUE]
None == [o |-> [none |-> TRUE]]
Start(c) == <<None, None>>
Lv(m, e) == m[e.L + 1]

\* when the reset heuristic is active: must the filter be reset at this acceptance?
Due(m) == IF m.o.max_filter_resets <= 0 \/ m.nres >= m.o.max_filter_resets THEN "F"
          ELSE IF ~m.known THEN "U" ELSE And3(m.last, T3(m.cnt + 1 >= m.o.filter_reset_trigger))

CheckEv(m0, e) ==
  LET m == Init0(m0, m0.ref)
      d == Decide(m, e.a, e.th, e.phi)
      acc == And3(Not3(d[3]), And3(d[1], d[2]))
  IN IF e.r = "err" THEN <<>>
     ELSE << <<"C07.acceptance", Consistent(e.r = "yes", acc)>>,
             <<"C07.filter_reset", IF e.r = "no" THEN ~m0.rs ELSE Consistent(m0.rs, Due(m0))>> >>

Check(c, st, e) ==
  IF ~Has(e, "L") THEN <<>>
  ELSE IF e.e = "fl.new" THEN <<>>
  ELSE LET m == Lv(st, e) IN
  IF Has(m.o, "none") THEN << <<"C07.order", FALSE>> >>
  ELSE CASE e.e = "fl.check" -> CheckEv(m, e)
    [] e.e = "fl.update" ->
         LET fa == And3(FType(m.o, m.ref, e.a), IF DFinite(e.phi) THEN Armijo(m.o, m.ref, e.a, e.phi) ELSE "U") IN
         << <<"C07.augment_iff_not_armijo", Consistent(e.c = "f", fa) /\ e.c \in {"f", "h"}>>,
            <<"C07.entries", ProbesOK(IF e.c = "f" THEN m ELSE [m EXCEPT !.F = Append(@, Entry(m.o, m.ref))], e.p)>> >>
    [] e.e = "fl.prepresto" -> << <<"C07.entries_resto", ProbesOK([m EXCEPT !.F = Append(@, Entry(m.o, m.ref))], e.p)>> >>
    [] e.e = "fl.reset" -> << <<"C07.reset_empties", ProbesOK([m EXCEPT !.F = <<>>], e.p)>> >>
    [] e.e = "fl.amin" ->
         LET o == m.o g == e.g th == e.th
             b == IF DLt(g, "0") THEN DMin(o.gamma_theta, DDiv(DMul(o.gamma_phi, th), DNeg(g))) ELSE o.gamma_theta
             b2 == DMin(b, DDiv(DMul(o.delta, DPow(th, o.s_theta)), DPow(DNeg(g), o.s_phi)))
             near(x) == DNear(e.a, DMul(o.alpha_min_frac, x), "1e-12", "0")
             sw == IF ~DLt(g, "0") \/ m.min \in {"none"} THEN "F" ELSE IF m.min = "?" THEN "U" ELSE Le3(th, m.min, DMul("1e-14", th))
         IN << <<"C07.alpha_min", (sw # "T" /\ near(b)) \/ (sw # "F" /\ near(b2))>> >>
    [] OTHER -> <<>>

StepL(m0, e) ==
  LET r == [th |-> e.th, phi |-> e.phi, g |-> e.g] IN
  CASE e.e = "fl.init" -> [m0 EXCEPT !.ref = IF e.wd THEN m0.wd ELSE r]
    [] e.e = "fl.wdstart" -> [m0 EXCEPT !.wd = r]
    [] e.e = "fl.wdstop" -> [m0 EXCEPT !.ref = m0.wd]
    [] e.e = "fl.begin" -> [m0 EXCEPT !.inb = TRUE, !.rs = FALSE]
    [] e.e = "fl.reset" -> IF m0.inb THEN [m0 EXCEPT !.rs = TRUE] ELSE [m0 EXCEPT !.F = <<>>, !.cnt = 0, !.last = "F", !.known = TRUE]
    [] e.e = "fl.check" ->
         IF e.r = "err" THEN [m0 EXCEPT !.inb = FALSE, !.max = IF @ = "none" /\ e.thok THEN "?" ELSE @, !.min = IF @ = "none" /\ e.thok THEN "?" ELSE @]
         ELSE LET m == Init0(m0, m0.ref)
                  d == Decide(m, e.a, e.th, e.phi)
                  rej == If3(d[3], m.last, If3(d[1], "T", "F"))
              IN IF e.r = "no" THEN [m EXCEPT !.inb = FALSE, !.last = rej]
                 ELSE IF m.rs THEN [m EXCEPT !.inb = FALSE, !.F = <<>>, !.cnt = 0, !.last = "F", !.nres = @ + 1, !.known = TRUE]
                 ELSE [m EXCEPT !.inb = FALSE, !.last = "F", !.known = IF m.last = "F" THEN TRUE ELSE @ /\ m.last # "U",
                               !.cnt = IF m.o.max_filter_resets <= 0 \/ m.nres >= m.o.max_filter_resets THEN @ ELSE IF m.last = "F" THEN 0 ELSE @ + 1]
    [] e.e = "fl.update" -> [m0 EXCEPT !.F = IF e.c = "f" THEN @ ELSE Append(@, Entry(m0.o, m0.ref)), !.ref.g = Slope(m0.ref)]
    [] e.e = "fl.prepresto" -> [m0 EXCEPT !.F = Append(@, Entry(m0.o, m0.ref))]
    [] OTHER -> m0
Step(c, st, e) ==
  IF ~Has(e, "L") THEN st
  ELSE IF e.e = "fl.new" THEN [st EXCEPT ![e.L + 1] = New(e)]
  ELSE IF Has(Lv(st, e).o, "none") THEN st
  ELSE [st EXCEPT ![e.L + 1] = StepL(@, e)]

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
