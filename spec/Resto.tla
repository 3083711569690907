------------------------------- MODULE Resto -------------------------------
(* The feasibility restoration phase (C09), as a trace specification: how   *)
(* it starts, when it may be left and how every way of leaving it is        *)
(* reported.  The filter of the regular algorithm is the one of             *)
(* LsFilter.tla, followed along in m.fs.                                    *)
(* events: fl.* of level 0 (the filter), resto.new (options of the phase),  *)
(* resto.start, rc.new (options of the inner problem), rc (decision at an   *)
(* inner iterate), rr (restoration inside restoration), ls.end/mu.update of *)
(* level 1 (how the inner algorithm ended), usr (answer of the user's       *)
(* callback), resto.end                                                     *)
EXTENDS TraceKit
VARIABLES t, i, s
L == INSTANCE LsFilter

None == [none |-> TRUE]
Start(c) == [fs |-> L!Start(c), o |-> None, k |-> None, st |-> None, pts |-> {}, last |-> None, succ |-> 0, acnt |-> 0, cause |-> "?", n |-> 0, stop |-> FALSE, kap |-> "?"]
Fin(v) == \A k \in 1..Len(v) : DFinite(v[k])
Le(a, b) == IF ~DFinite(a) \/ ~DFinite(b) THEN "U" ELSE IF DLe(a, b) THEN "T" ELSE "F"
Near(a, b) == DNear(a, b, "1e-10", "1e-300")
NearV(v, w) == Len(v) = Len(w) /\ \A k \in 1..Len(v) : IF DFinite(v[k]) /\ DFinite(w[k]) THEN DNear(v[k], w[k], "1e-9", "1e-12") ELSE TRUE

----------------------------------------------------------------------------
\* the required reduction of the infeasibility
Kappa(m, st) == IF m.o.kset THEN m.o.k ELSE IF st.sq THEN "0" ELSE IF m.o.ei /\ m.n = 1 /\ DLt("1e-3", st.th) THEN "1e-3" ELSE "0.9"

\* the inner problem is solved
Solved(m, e) == L!And3(L!And3(Le(e.err, e.rtol0), Le(e.du, m.k.dual_inf_tol)), L!And3(Le(e.cv, m.k.constr_viol_tol), Le(e.co, m.k.compl_inf_tol)))
\* ... to its acceptable level (the change of the objective left out: see Accept3)
Level(m, e) == L!And3(L!And3(Le(e.err, m.k.acceptable_tol), Le(e.du, m.k.acceptable_dual_inf_tol)), L!And3(Le(e.cv, m.k.acceptable_constr_viol_tol), Le(e.co, m.k.acceptable_compl_inf_tol)))
Lev3(m, e) == IF DLt(m.k.acceptable_obj_change_tol, "1e19") THEN L!And3("U", Level(m, e)) ELSE Level(m, e)
\* state of the counter of acceptable iterates, "?" when it cannot be known: <<least, most>>
NextCnt(m, e) == LET a == IF m.k.acceptable_iter > 0 THEN Lev3(m, e) ELSE "F" c == m.acnt IN
   IF a = "T" THEN IF c = -1 THEN -1 ELSE c + 1 ELSE IF a = "F" THEN 0 ELSE -1
Accept3(m, e) == IF m.k.acceptable_iter = 0 \/ Lev3(m, e) = "F" THEN "F" ELSE IF NextCnt(m, e) = -1 THEN "U" ELSE L!T3(NextCnt(m, e) >= m.k.acceptable_iter)
\* what an end of the inner problem means at a point that may not be returned
Ended(m, e) ==
  IF ~DFinite(e.tpr) THEN {}
  ELSE IF DLe(e.tpr, DMul("1e2", e.rtol0)) /\ DLt(DMul("1e-1", e.otol), e.rtol0) THEN {"TIGHTER"}
  ELSE IF e.sq /\ DLe(e.tpr, m.k.ocvt) THEN {"ACCEPTABLE"}
  ELSE IF DLe(e.tpr, DMul("1e2", e.rtol0)) THEN {"RESTORATION_CONVERGED_TO_FEASIBLE_POINT"}
  ELSE {"LOCALLY_INFEASIBLE"}
Going(m, e) == IF ~DFinite(e.xa) THEN {"DIVERGING", "CONTINUE"} ELSE IF DLt(m.k.diverging_iterates_tol, e.xa) THEN {"DIVERGING"} ELSE {"CONTINUE"}
Opt3(a, S, R) == IF a = "T" THEN S ELSE IF a = "F" THEN R ELSE S \cup R
Inner(m, e) == Opt3(Solved(m, e), Ended(m, e), Opt3(Accept3(m, e), Ended(m, e), Going(m, e)))
\* the point may be given back to the regular algorithm
Limit(m, e) == IF DEq(m.kap, "0") THEN "0" ELSE DMax(DMul(m.kap, m.st.pr), DMin(e.otol, m.k.ocvt))
Good3(m, e) ==
  LET f == L!Lv(m.fs, e) IN
  IF ~DFinite(e.tpr) THEN "U"
  ELSE IF m.last = None THEN "F"
  ELSE IF e.sq /\ DLe(e.tpr, DMin(e.otol, m.k.ocvt)) THEN "T"
  ELSE IF DLt(Limit(m, e), e.tpr) THEN "F"
  ELSE IF ~DFinite(e.tph) \/ ~DFinite(e.tth) THEN "U"
  ELSE L!And3(L!AccF(f.F, e.tth, e.tph), L!Progress(f.o, f.ref, e.tth, e.tph))
Outcomes(m, e) ==
  IF m.stop THEN {"USER_STOP"}
  ELSE IF e.it >= m.k.max_iter \/ m.succ > m.k.max_resto_iter THEN {"MAXITER"}
  ELSE Opt3(Good3(m, e), {"CONVERGED"}, Inner(m, e))
Outcome(e) == IF e.r = "exc" THEN e.x ELSE IF e.r = "CONTINUE" /\ e.rtol # e.rtol0 THEN "TIGHTER" ELSE e.r

\* the inner problem: rho (sum of n and p) + eta/2 |D (x - x0)|^2,  c(x) + n - p = 0,  d(x) + n - p = s
Wt(x0) == DDiv("1", DMax("1", DAbs(x0)))
Diff(m, e) == [j \in 1..Len(e.pt.x) |-> DMul(Wt(m.st.cu.x[j]), DSub(e.pt.x[j], m.st.cu.x[j]))]
Eta(m, e) == DMul(m.k.resto_proximity_weight, DSqrt(e.mu))
ObjOK(m, e) == LET d == Diff(m, e) nn == e.np[1] \o e.np[2] \o e.np[3] \o e.np[4] IN
   IF ~Fin(d) \/ ~Fin(nn) \/ ~DFinite(e.q.f) THEN TRUE
   ELSE DNear(e.q.f, DAdd(DMul(m.k.resto_penalty_parameter, DSumSeq(nn)), DMul(DDiv(Eta(m, e), "2"), DDot(d, d))), "1e-9", DMul(m.k.resto_penalty_parameter, DAdd(DMul("1e-9", DAmaxSeq(nn \o <<"0">>)), DMul("1e-13", DAmaxSeq(e.pt.x \o <<"0">>)))))
GradOK(m, e) == LET d == Diff(m, e) IN Fin(d) =>
   /\ NearV(e.q.df[1], [j \in 1..Len(d) |-> DMul(Eta(m, e), DMul(Wt(m.st.cu.x[j]), d[j]))])
   /\ \A b \in 2..5 : \A j \in 1..Len(e.q.df[b]) : e.q.df[b][j] = m.k.resto_penalty_parameter
ConOK(c, oc, n, p) == Len(c) = Len(oc) /\ \A j \in 1..Len(c) : IF DFinite(oc[j]) /\ DFinite(n[j]) /\ DFinite(p[j])
   THEN DNear(c[j], DSub(DAdd(oc[j], n[j]), p[j]), "1e-12", DMul("1e-13", DAdd(DAbs(oc[j]), DAdd(n[j], p[j])))) ELSE TRUE
\* best n and p for given residuals r
Root(mu, rho, r) == LET a == DSub(DDiv(mu, DMul("2", rho)), DMul("0.5", r)) IN DAdd(a, DSqrt(DAdd(DMul(a, a), DMul(r, DDiv(mu, DMul("2", rho))))))
BestOK(mu, rho, r, n, p) == Len(n) = Len(r) /\ Len(p) = Len(r) /\ \A j \in 1..Len(r) : IF ~DFinite(r[j]) \/ ~DFinite(n[j]) \/ ~DFinite(mu) THEN TRUE
   ELSE LET v == Root(mu, rho, r[j]) sc == DMul("1e-10", DAdd(DAbs(r[j]), mu)) IN DNear(n[j], v, "1e-9", sc) /\ DNear(p[j], DAdd(r[j], v), "1e-9", sc)
FirstOK(m, e) ==
  LET st == m.st mu == DMax(st.mu, DMax(DAmaxSeq(st.c \o <<"0">>), DAmaxSeq(st.dms \o <<"0">>))) rho == m.k.resto_penalty_parameter
      cap(v) == [j \in 1..Len(v) |-> DMin(v[j], rho)]
  IN << <<"C09.first_point", e.pt.x = st.cu.x /\ e.pt.s = st.cu.s>>, <<"C09.first_count", e.it = st.it + 1>>,
        <<"C09.first_mu", IF DFinite(mu) THEN Near(e.mu, mu) ELSE TRUE>>,
        <<"C09.first_slacks", BestOK(e.mu, rho, st.c, e.np[1], e.np[2]) /\ BestOK(e.mu, rho, st.dms, e.np[3], e.np[4])>>,
        <<"C09.first_multipliers", NearV(e.pt.zl, cap(st.cu.zl)) /\ NearV(e.pt.zu, cap(st.cu.zu)) /\ NearV(e.pt.vl, cap(st.cu.vl)) /\ NearV(e.pt.vu, cap(st.cu.vu))>> >>

CheckRc(m, e) ==
  IF Has(m.st, "none") \/ Has(m.k, "none") THEN << <<"C09.order", FALSE>> >>
  ELSE IF e.r = "exc" /\ e.x \in {"Eval_Error", "other"} THEN <<>>
  ELSE << <<"C09.exit", Outcome(e) \in Outcomes(m, e)>>,
          <<"C09.tolerance", DEq(e.rtol, IF Outcome(e) = "TIGHTER" THEN DMul("1e-2", e.rtol0) ELSE e.rtol0) /\ (IF Has(m.last, "none") THEN TRUE ELSE e.rtol0 = m.last.rtol)>>,
          <<"C09.reference", IF DFinite(e.cpr) THEN e.cpr = m.st.pr ELSE TRUE>>,
          <<"C09.offered_point", e.tr[1] = e.pt.x /\ e.tr[2] = e.pt.s>> >>
       \o (IF Has(m.last, "none") THEN FirstOK(m, e) ELSE << <<"C09.count", e.it = m.last.it + 1>> >>)
       \o (IF Has(e, "q") THEN << <<"C09.inner_objective", ObjOK(m, e)>>, <<"C09.inner_gradient", GradOK(m, e)>>,
                                  <<"C09.inner_constraints", ConOK(e.q.c, e.q.oc, e.np[1], e.np[2]) /\ ConOK(e.q.d, e.q.od, e.np[3], e.np[4])>> >> ELSE <<>>)

----------------------------------------------------------------------------
\* what has to be reported for the ways the inner algorithm can end
Threshold(m) == IF m.o.tset THEN m.o.fth ELSE DMul("1e2", m.o.tol)
Reports(m, e) ==
  LET sq == m.st.sq c == m.cause IN
  CASE c = "CONVERGED" -> IF sq THEN {"true", "FEASIBILITY_PROBLEM_SOLVED"} ELSE {"true"}
    [] c = "ACCEPTABLE" -> IF ~DFinite(e.pr) \/ ~DFinite(e.upr) THEN {"Eval_Error", "other", "LOCALLY_INFEASIBLE", "RESTORATION_CONVERGED_TO_FEASIBLE_POINT"}
                           ELSE IF sq /\ DLt(e.upr, m.o.constr_viol_tol) THEN {"FEASIBILITY_PROBLEM_SOLVED"}
                           ELSE IF DLe(e.pr, Threshold(m)) THEN {"RESTORATION_CONVERGED_TO_FEASIBLE_POINT"} ELSE {"LOCALLY_INFEASIBLE"}
    [] c = "TINY" -> IF ~DFinite(e.pr) \/ ~DFinite(e.upr) THEN {"Eval_Error", "other", "LOCALLY_INFEASIBLE", "RESTORATION_CONVERGED_TO_FEASIBLE_POINT"}
                     ELSE IF DLe(e.pr, Threshold(m)) THEN {"RESTORATION_CONVERGED_TO_FEASIBLE_POINT"} ELSE {"LOCALLY_INFEASIBLE"}
    [] c = "MAXITER" -> {"RESTORATION_MAXITER_EXCEEDED"}
    [] c = "CPUTIME" -> {"RESTORATION_CPUTIME_EXCEEDED"}
    [] c = "WALLTIME" -> {"RESTORATION_WALLTIME_EXCEEDED"}
    [] c = "USER_STOP" -> {"RESTORATION_USER_STOP"}
    [] c = "LOCALLY_INFEASIBLE" -> {"LOCALLY_INFEASIBLE"}
    [] c \in {"RESTORATION_CONVERGED_TO_FEASIBLE_POINT", "RESTORATION_FAILED", "STEP_COMPUTATION_FAILED"} -> {"RESTORATION_FAILED"}
    [] c \in {"DIVERGING", "Eval_Error"} -> {"false"}
    [] OTHER -> {"false", "RESTORATION_FAILED", "RESTORATION_CPUTIME_EXCEEDED", "RESTORATION_WALLTIME_EXCEEDED", "Eval_Error", "other"}

\* multipliers after the return
RECURSIVE Ftb(_, _, _, _)
Ftb(tau, v, d, a) == IF v = <<>> THEN a ELSE Ftb(tau, Tail(v), Tail(d), IF DLt(d[1], "0") THEN DMin(a, DDiv(DMul(tau, v[1]), DNeg(d[1]))) ELSE a)
Zs(p) == p.zl \o p.zu \o p.vl \o p.vu
Flat(q) == q[1] \o q[2] \o q[3] \o q[4]
MultOK(m, e) ==
  LET z == Zs(m.st.cu) sc == Flat(m.st.sl) sn == Flat(e.sl) w == Zs(e.tr)
      dz == [j \in 1..Len(z) |-> DSub(DDiv(DAdd(m.st.mu, DMul(z[j], DSub(sc[j], sn[j]))), sc[j]), z[j])]
  IN IF ~(Fin(z) /\ Fin(sc) /\ Fin(sn) /\ Fin(w)) THEN TRUE
     ELSE IF ~Fin(dz) THEN TRUE
     ELSE LET a == Ftb(m.st.tau, z, dz, "1")
              nz == [j \in 1..Len(z) |-> DAdd(z[j], DMul(a, dz[j]))]
              big == DAmaxSeq(nz \o <<"0">>)
              r == L!Le3(big, m.o.bound_mult_reset_threshold, DMul("1e-8", big))
              kept == \A j \in 1..Len(z) : DNear(w[j], nz[j], "1e-7", DMul("1e-9", DAdd(DAbs(z[j]), DAbs(DMul(a, dz[j])))))
              ones == \A j \in 1..Len(w) : DEq(w[j], "1")
          IN IF r = "T" THEN kept ELSE IF r = "F" THEN ones ELSE kept \/ ones
ZeroV(v) == \A j \in 1..Len(v) : DEq(v[j], "0")
EqMultOK(m, e) == LET y == e.tr.yc \o e.tr.yd IN
  IF ZeroV(y) THEN TRUE
  ELSE Len(e.tr.yc) # Len(e.tr.x) /\ DLt("0", m.o.constr_mult_reset_threshold) /\ DLe(DAmaxSeq(y), m.o.constr_mult_reset_threshold)
       /\ (IF DFinite(e.w) /\ DFinite(e.jc) /\ DFinite(e.jd) THEN DLe(DMax(e.jc, e.jd), DMul("1e-4", DMul(e.w, DAdd("1", DAmaxSeq(y))))) ELSE TRUE)

CheckEnd(m, e) ==
  IF Has(m.st, "none") THEN << <<"C09.order", FALSE>> >>
  ELSE << <<"C09.report", e.r \in Reports(m, e)>>,
          <<"C09.square_feasible", IF e.r = "FEASIBILITY_PROBLEM_SOLVED" /\ DFinite(e.upr) THEN DLe(e.upr, m.o.constr_viol_tol) ELSE TRUE>> >>
    \o (IF Has(m.last, "none") THEN <<>>
        ELSE IF e.r = "true" THEN
           << <<"C09.returned_point", e.tr.x = m.last.pt.x /\ e.tr.s = m.last.pt.s /\ m.last.r = "CONVERGED">>, <<"C09.returned_count", e.it = m.last.it - 1>>,
              <<"C09.bound_multipliers", MultOK(m, e)>>, <<"C09.constraint_multipliers", EqMultOK(m, e)>> >>
        ELSE IF e.r = "FEASIBILITY_PROBLEM_SOLVED" /\ m.cause = "CONVERGED" THEN << <<"C09.returned_point", e.cu.x = m.last.pt.x /\ e.cu.s = m.last.pt.s>> >>
        ELSE IF e.r \in {"Eval_Error", "other"} THEN <<>>
        ELSE << <<"C09.final_point", e.cu \in m.pts>>,
                <<"C09.infeasible_not_feasible", IF e.r = "LOCALLY_INFEASIBLE" /\ m.cause = "LOCALLY_INFEASIBLE" /\ DFinite(e.pr) THEN DLt(DMul("1e2", m.last.rtol0), e.pr) ELSE TRUE>> >>)

CheckRr(m, e) ==
  IF ~e.r THEN <<>>
  ELSE LET rho == m.k.resto_penalty_parameter
           \* residuals of the original constraints
           r(c, n, p) == [j \in 1..Len(c) |-> DAdd(DSub(c[j], n[j]), p[j])] IN
  << <<"C09.inner_resto_point", e.tr.x = e.pt.x /\ e.tr.s = e.pt.s>>,
     <<"C09.inner_resto_slacks", BestOK(e.mu, rho, r(e.c, e.np0[1], e.np0[2]), e.np[1], e.np[2]) /\ BestOK(e.mu, rho, r(e.dms, e.np0[3], e.np0[4]), e.np[3], e.np[4])>> >>

Check(c, m, e) ==
  CASE e.e = "rc" -> CheckRc(m, e)
    [] e.e = "resto.end" -> CheckEnd(m, e)
    [] e.e = "rr" -> CheckRr(m, e)
    [] e.e = "rc.new" -> << <<"C09.required_reduction", IF Has(m.st, "none") THEN FALSE ELSE DEq(e.required_infeasibility_reduction, m.kap)>> >>
    [] OTHER -> <<>>

Step(c, m, e) ==
  CASE e.e = "resto.new" -> [m EXCEPT !.o = e]
    [] e.e = "resto.start" -> LET m1 == [m EXCEPT !.n = @ + 1] IN [m1 EXCEPT !.st = e, !.k = None, !.pts = {}, !.last = None, !.succ = 0, !.acnt = 0, !.cause = "?", !.stop = FALSE, !.kap = Kappa(m1, e)]
    [] e.e = "rc.new" -> [m EXCEPT !.k = e]
    [] e.e = "usr" -> [m EXCEPT !.stop = ~e.ret]
    [] e.e = "rc" -> IF Has(m.st, "none") \/ Has(m.k, "none") THEN m
         ELSE [m EXCEPT !.last = e, !.pts = @ \cup {e.pt}, !.succ = @ + 1, !.stop = FALSE, !.cause = IF e.r = "exc" THEN e.x ELSE IF e.r = "CONTINUE" THEN "?" ELSE e.r,
                        !.acnt = IF DFinite(e.tpr) /\ Good3(m, e) = "F" /\ Solved(m, e) = "F" THEN NextCnt(m, e) ELSE IF Good3(m, e) = "F" /\ Solved(m, e) = "T" THEN @ ELSE -1]
    [] e.e = "ls.end" -> IF e.r = "exc" THEN [m EXCEPT !.cause = IF e.x \in {"ACCEPTABLE_POINT_REACHED"} THEN "ACCEPTABLE" ELSE e.x] ELSE [m EXCEPT !.cause = "?"]
    [] e.e = "mu.update" -> [m EXCEPT !.cause = IF e.r = "tiny" THEN "TINY" ELSE "?"]
    [] e.e = "resto.end" -> [m EXCEPT !.st = None]
    [] e.e \in {"rr"} -> m
    [] OTHER -> [m EXCEPT !.fs = L!Step(c, @, e)]

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
