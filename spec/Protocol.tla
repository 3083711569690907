------------------------------ MODULE Protocol ------------------------------
(* The protocol between Ipopt and the user's problem object, as a monitor   *)
(* over the recorded callbacks of one optimize call (properties C02, C03,   *)
(* C04 and the end of C01).                                                 *)
(* Events (field e): info bounds scaling varlin conlin nnl nllist start     *)
(*   jacS hesS                            structure requests                *)
(*   f gradf g jac hes                    evaluations: x (point id), nx     *)
(*                                        (new_x flag), ok, fin, q (made    *)
(*                                        inside a user query), l, of       *)
(*   iter                                 mode, it, ret (user's answer), xi *)
(*   final                                st, x                             *)
(*   end                                  ret (return code), n (counts)     *)
EXTENDS TraceKit
VARIABLES t, i, s

EvalKinds == {"f", "gradf", "g", "jac", "hes"}
PriorTo(e) == e \in {"info", "bounds", "scaling", "varlin", "conlin", "nnl", "nllist", "start", "jacS", "hesS"}

Start(c) == [info |-> c.resolve, bounds |-> c.resolve, jacS |-> c.resolve, hesS |-> c.resolve, start |-> FALSE,
             lastx |-> 0, seen |-> {}, win |-> {}, bad |-> {}, good |-> {}, it |-> -1, mode |-> 0, last |-> "", stop |-> FALSE, fin |-> FALSE, st |-> -1,
             nsetup |-> 0, cnt |-> [k \in EvalKinds |-> 0], qn |-> [k \in EvalKinds |-> 0], pre |-> [k \in EvalKinds |-> 0], tail |-> [k \in EvalKinds |-> 0],
             xi |-> 0, exc |-> "", matfail |-> FALSE, over |-> FALSE, resto |-> FALSE]

Key(e) == IF e.e = "hes" THEN <<e.e, e.l, e.of>> ELSE <<e.e>>
OkEv(c, e) == e.ok /\ (e.fin \/ (e.e \in {"jac", "hes"} /\ ~c.nanchk))

ExcRet(w) == IF w = "oom" THEN -102 ELSE IF w = "exc" THEN -101 ELSE -100
\* return code belonging to the status given to finalize_solution
RetOf == [k \in 0..17 |-> CASE k = 0 -> 0 [] k = 1 -> -1 [] k = 2 -> -4 [] k = 3 -> -5 [] k = 4 -> 3 [] k = 5 -> 1
            [] k = 6 -> 2 [] k = 7 -> 5 [] k = 8 -> 6 [] k = 9 -> 4 [] k = 10 -> -2 [] k = 11 -> -3 [] k = 12 -> -13
            [] k = 13 -> -10 [] k = 14 -> -12 [] k = 15 -> -102 [] k = 16 -> -199 [] OTHER -> -199]
Internal == {-100, -101, -102, -199}

Check(c, m, e) ==
  IF e.e = "info" THEN << <<"C02.info_first", Imp(~c.resolve, ~m.info /\ ~m.bounds)>>, <<"C02.nothing_after_end", ~m.fin>> >>
  ELSE IF e.e = "bounds" THEN << <<"C02.bounds_after_info", m.info>>, <<"C02.dim", e.dim>>, <<"C02.bounds_before_start", ~m.start>> >>
  ELSE IF e.e \in {"jacS", "hesS"} THEN
     << <<"C02.structure_after_info", m.info>>, <<"C02.dim", e.dim>>, <<"C02.structure_before_values", m.last \notin EvalKinds \/ c.resolve>> >>
  ELSE IF e.e = "start" THEN
     << <<"C02.start_after_bounds", m.bounds>>, <<"C02.start_after_structure", m.jacS>>, <<"C02.dim", e.dim>>,
        <<"C02.start_before_iterations", m.it = -1>>, <<"C02.start_flags", e.ix \/ c.warm>>, <<"C02.nothing_after_end", ~m.fin>> >>
  ELSE IF e.e \in {"scaling", "varlin", "conlin", "nnl", "nllist"} THEN
     << <<"C02.info_before", m.info>>, <<"C02.setup_before_iterations", m.it = -1>>, <<"C02.dim", Imp(Has(e, "dim"), e.dim)>> >>
  ELSE IF e.e \in EvalKinds THEN
     << <<"C02.eval_after_start", m.start>>, <<"C02.dim", e.dim>>,
        <<"C02.jac_structure_first", Imp(e.e = "jac", m.jacS)>>, <<"C02.hes_structure_first", Imp(e.e = "hes", m.hesS)>>,
        <<"C02.new_x", e.nx \/ e.x = m.lastx \/ (c.fd /\ e.x \in m.seen)>>,
        <<"C02.not_repeated", Imp(~e.nx /\ ~e.q /\ ~c.fd /\ Key(e) \in m.win, e.e \in {"gradf", "jac"} /\ c.fixed)>>,
        <<"C02.nothing_after_end", ~m.fin>>,
        <<"C02.hessian_needed", Imp(e.e = "hes", ~c.limmem)>> >>
  ELSE IF e.e = "exc" THEN <<>>
  ELSE IF e.e = "iter" THEN
     << <<"C01.nothing_after_exception", m.exc = "">>, <<"C04.first_is_zero", Imp(m.it = -1, e.it = 0 /\ e.mode = 0)>>,
        <<"C04.numbering", Imp(m.it >= 0, e.it = m.it + (IF m.mode = 1 /\ e.mode = 0 THEN 0 ELSE 1))>>,
        <<"C04.stop_obeyed", ~m.stop>>,
        <<"C02.final_is_last", ~m.fin>>,
        <<"C04.evaluated", Imp(e.xi > 0, <<"f", e.xi>> \in m.good /\ (<<"g", e.xi>> \in m.good \/ c.m = 0))>>,
        <<"C03.iterate_not_failed", Imp(e.xi > 0, <<"f", e.xi>> \notin m.bad /\ <<"g", e.xi>> \notin m.bad /\ <<"jac", e.xi>> \notin m.bad)>>,
        <<"C03.gradient_not_failed", Imp(e.xi > 0 /\ e.mode = 0, <<"gradf", e.xi>> \notin m.bad)>> >>
  ELSE IF e.e = "final" THEN
     << <<"C01.final_once", ~m.fin>>, <<"C02.dim", e.dim>>, <<"C02.final_after_start", m.start>>,
        <<"C04.stop_status", m.stop = (e.st = 7)>>,
        <<"C04.stop_point", Imp(m.stop /\ m.xi > 0 /\ m.mode = 0 /\ ~c.honor, e.x = m.xi)>>,
        <<"C01.final_point", Imp(m.xi > 0 /\ e.st \in {0, 5} /\ m.mode = 0 /\ ~c.honor, e.x = m.xi)>>,
        <<"C03.final_not_failed", Imp(e.st \in {0, 4, 5, 6, 7, 8, 9}, <<"f", e.x>> \notin m.bad /\ <<"g", e.x>> \notin m.bad)>>,
        <<"C03.invalid_number_reported", Imp(m.matfail /\ m.mode = 0, e.st \in {10, 12, 16})>> >>
  ELSE IF e.e = "end" THEN
     << <<"C01.final_iff_iterate", Imp(m.it >= 0 /\ e.ret \notin Internal, m.fin)>>,
        <<"C01.final_count", e.nfin <= 1 /\ (e.nfin = 1) = m.fin>>,
        <<"C01.return_matches_status", Imp(m.fin /\ m.st /= 16, e.ret = RetOf[m.st])>>,
        <<"C01.user_exception", Imp(m.exc # "", e.ret = ExcRet(m.exc))>>,
        <<"C04.stop_return", Imp(m.stop, e.ret = 5)>>,
        <<"C01.no_internal_error", e.ret # -199>>,
        <<"C01.timer_stopped", ~e.timer>>,
        <<"C04.iteration_count", Imp(Has(e, "iters") /\ m.it >= 0 /\ e.ret = 0, e.iters = m.it \/ (m.mode = 1 /\ e.iters >= m.it))>>,
        <<"C02.count_f", Imp(Has(e, "n") /\ m.it >= 0 /\ ~c.fd, e.n[1] \in (m.cnt["f"] - m.tail["f"] - m.pre["f"])..(m.cnt["f"] + m.qn["f"]))>>,
        <<"C02.count_gradf", Imp(Has(e, "n") /\ m.it >= 0 /\ ~c.fd, e.n[2] \in (m.cnt["gradf"] - m.tail["gradf"] - m.pre["gradf"])..(m.cnt["gradf"] + m.qn["gradf"]))>>,
        <<"C02.count_g", Imp(Has(e, "n") /\ m.it >= 0 /\ ~c.fd, e.n[3] \in (m.cnt["g"] - m.tail["g"] - m.pre["g"])..(m.cnt["g"] + m.qn["g"]))>>,
        <<"C02.count_jac", Imp(Has(e, "n") /\ m.it >= 0 /\ ~c.fd /\ ~c.fdjac, e.n[4] \in (m.cnt["jac"] - m.tail["jac"] - m.pre["jac"])..(m.cnt["jac"] + m.qn["jac"]))>>,
        <<"C02.count_hes", Imp(Has(e, "n") /\ m.it >= 0 /\ ~c.fd /\ ~c.limmem, IF m.resto THEN e.n[5] >= m.cnt["hes"] ELSE e.n[5] = m.cnt["hes"])>> >>
  ELSE <<>>

EvalStep(c, m, e) ==
  LET k == <<e.e, e.x>>
      good == OkEv(c, e)
      fail == ~e.ok \/ (~e.fv /\ (e.e \notin {"jac", "hes"} \/ c.nanchk))
      m1 == [m EXCEPT !.lastx = e.x, !.seen = IF c.fd THEN @ \cup {e.x} ELSE @,
                !.win = (IF e.nx THEN {} ELSE @) \cup (IF good /\ ~e.q THEN {Key(e)} ELSE {}),
                !.bad = IF good THEN @ \ {k} ELSE IF fail /\ k \notin m.good THEN @ \cup {k} ELSE @,
                !.good = IF good THEN @ \cup {k} ELSE @,
                !.last = e.e]
      m2 == IF e.q THEN [m1 EXCEPT !.qn[e.e] = @ + 1] ELSE [m1 EXCEPT !.cnt[e.e] = @ + 1, !.tail[e.e] = @ + 1]
      own == c.fixed /\ e.e # "hes" /\ (e.x = m.xi \/ c.honor)   \* multipliers of fixed variables at the end
  IN IF ~e.q /\ ~e.ok /\ ~own /\ (e.e = "hes" \/ (e.e \in {"jac", "gradf"} /\ m.it >= 0)) /\ m.mode = 0 THEN [m2 EXCEPT !.matfail = TRUE] ELSE m2

Step(c, m, e) ==
  IF e.e = "info" THEN [m EXCEPT !.info = TRUE, !.last = e.e]
  ELSE IF e.e = "bounds" THEN [m EXCEPT !.bounds = TRUE, !.last = e.e]
  ELSE IF e.e = "jacS" THEN [m EXCEPT !.jacS = TRUE, !.last = e.e]
  ELSE IF e.e = "hesS" THEN [m EXCEPT !.hesS = TRUE, !.last = e.e]
  ELSE IF e.e = "start" THEN
     [m EXCEPT !.start = TRUE, !.win = {}, !.last = e.e, !.pre = m.cnt]
  ELSE IF e.e \in EvalKinds THEN EvalStep(c, m, e)
  ELSE IF e.e = "iter" THEN
     [m EXCEPT !.it = e.it, !.mode = e.mode, !.stop = ~e.ret, !.xi = e.xi, !.tail = [k \in EvalKinds |-> 0], !.resto = @ \/ e.mode = 1,
               !.last = "iter"]
  ELSE IF e.e = "exc" THEN [m EXCEPT !.exc = e.what, !.stop = FALSE]
  ELSE IF e.e = "final" THEN [m EXCEPT !.fin = TRUE, !.st = e.st, !.last = e.e]
  ELSE m

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
