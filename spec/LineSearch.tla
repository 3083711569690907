----------------------------- MODULE LineSearch -----------------------------
(* The line search with all its recovery measures (C08), as a trace         *)
(* specification: what may follow what, with which step sizes, and how each *)
(* search must end.  Level 0 is the regular algorithm, level 1 restoration. *)
(*                                                                          *)
(* m.pc is what the specification waits for:                                *)
(*  idle     no search in progress                                          *)
(*  fb       fallback requested, no restoration phase                       *)
(*  init     acceptor prepared for this search                              *)
(*  wdstop0  watchdog given up before the search                            *)
(*  wdstart  watchdog woken up                                              *)
(*  tiny     tiny step: taken unchecked, or regular search if the functions *)
(*           cannot be evaluated there (resolved by the next event)         *)
(*  amin, corr, incorr, loop, insoc, maxs, update    backtracking           *)
(*  wdstop1  watchdog given up after the search                             *)
(*  soft, softpd      step of a soft restoration phase (the evaluation or   *)
(*           error reduction outcome is resolved by the next event)         *)
(*  prep1, soft1, softpd1   attempt to start a soft restoration phase       *)
(*  prep2, resto, inresto   restoration phase                               *)
(*  end      the outcome m.x                                                *)
(* events: ls.new fl.new ls.find fl.init fl.wdstart fl.wdstop fl.amin       *)
(* fl.corr fl.correnc fl.check fl.soc fl.socend fl.update fl.prepresto      *)
(* fl.reset ls.reset ls.rigorous ls.fallback ls.dofb fl.restored            *)
(* resto.start resto.end ls.end                                             *)
EXTENDS TraceKit
VARIABLES t, i, s

Near(a, b) == DNear(a, b, "1e-12", "0")
None == [none |-> TRUE]
New(e, r) == [o |-> e, resto |-> r.resto, afy |-> r.afy, afytol |-> r.afytol, pc |-> "idle", rigor |-> TRUE, fb |-> FALSE, swr |-> e.start_with_resto, ei |-> e.expect_infeasible_problem,
   ctol |-> e.expect_infeasible_problem_ctol, tl |-> FALSE, soft |-> FALSE, softn |-> 0, wd |-> FALSE, wdn |-> 0, wdsh |-> 0, wdf |-> None, short |-> 0,
   mu |-> "-1", acc |-> None, f |-> None, goto |-> FALSE, tiny |-> FALSE, a |-> "0", amax |-> "0", amin |-> "0", n |-> 0, skip |-> FALSE, err |-> FALSE,
   corr |-> FALSE, socn |-> 0, socth |-> "0", soc |-> FALSE, at |-> "0", c |-> "?", x |-> None, lost |-> FALSE, ms |-> FALSE, ef |-> FALSE, inr |-> FALSE]

----------------------------------------------------------------------------
\* endings
End(m, x) == [m EXCEPT !.pc = "end", !.x = x]
Exc(m, n) == End(m, [k |-> "exc", n |-> n])
Finish(m, c, ap, kind) == End(m, [k |-> "ok", c |-> c, ap |-> ap, kind |-> kind])
\* the step is taken by the regular search (or unchecked)
Taken(m, c, kind) ==
  LET m1 == IF m.n = 0 THEN [m EXCEPT !.short = 0, !.wdsh = 0] ELSE [m EXCEPT !.short = @ + 1, !.wdsh = @ + 1]
      m2 == IF m1.ei /\ DLe(m1.f.th, m1.ctol) THEN [m1 EXCEPT !.ei = FALSE] ELSE m1
  IN Finish(m2, c, IF kind = "tiny" THEN m.f.amax ELSE m.a, kind)
AlmostFeasible(m) == DLe(m.f.th, DMul("1e-2", m.f.tol)) /\ DLe(m.f.upr, DMul("1e-1", m.o.constr_viol_tol))
NA3(m) ==    \* the restoration phase has been prepared
  IF m.f.acc THEN Exc(m, "ACCEPTABLE_POINT_REACHED")
  ELSE IF ~m.resto THEN Exc(m, "other")
  ELSE IF AlmostFeasible(m) THEN IF Has(m.acc, "none") THEN Exc(m, "STEP_COMPUTATION_FAILED") ELSE End(m, [k |-> "exc", n |-> "ACCEPTABLE_POINT_REACHED", back |-> TRUE])
  ELSE [m EXCEPT !.pc = "resto"]
NA2(m) == IF m.soft THEN NA3(m) ELSE [m EXCEPT !.pc = "prep2"]
\* no acceptable step
NA(m) == IF ~m.rigor THEN End(m, [k |-> "skipped"])
         ELSE IF ~m.soft /\ ~m.goto /\ ~m.ei THEN [m EXCEPT !.pc = "prep1"]
         ELSE NA2(m)
SoftOff(m) == DEq(m.o.soft_resto_pderror_reduction_factor, "0")
MaxS(m) == m.o.accept_every_trial_step \/ (m.o.accept_after_max_steps # -1 /\ m.n >= m.o.accept_after_max_steps)
\* the search over decreasing step sizes
Loop(m) == IF m.n = 0 \/ DLt(m.amin, m.a) THEN [m EXCEPT !.pc = IF MaxS(m) THEN "maxs" ELSE "loop"] ELSE NA(m)
DoBT(m, sk) == LET m1 == [m EXCEPT !.skip = sk, !.err = FALSE, !.soc = FALSE, !.corr = FALSE, !.amax = m.f.amax, !.a = m.f.amax] IN
   IF m.wd THEN [m1 EXCEPT !.pc = "corr", !.amin = m.f.amax] ELSE [m1 EXCEPT !.pc = "amin"]
AfterAmin(m) == IF m.skip THEN Loop([m EXCEPT !.a = DMul(@, m.o.alpha_red_factor), !.at = m.a]) ELSE [m EXCEPT !.pc = "corr"]
BTFail(m) == \* the search ended without a step
   IF m.wd THEN IF m.err \/ m.wdn + 1 > m.o.watchdog_trial_iter_max THEN [m EXCEPT !.pc = "wdstop1", !.wdn = @ + 1] ELSE Taken([m EXCEPT !.wdn = @ + 1], "w", "bt")
   ELSE NA(m)
Shorter(m) == Loop([m EXCEPT !.a = DMul(@, m.o.alpha_red_factor), !.n = @ + 1])
Rejected(m, th) == IF m.wd THEN BTFail(m) ELSE IF m.ei /\ m.short >= 5 THEN BTFail(m)
   ELSE IF ~m.err /\ m.a = m.amax /\ DLe(m.f.th, th) THEN [m EXCEPT !.pc = "insoc", !.soc = TRUE] ELSE Shorter(m)
Soft(m) == IF m.softn + 1 > m.o.max_soft_resto_iters \/ SoftOff(m) THEN NA([m EXCEPT !.softn = @ + 1]) ELSE [m EXCEPT !.pc = "soft", !.softn = @ + 1]
Main(m) == IF m.goto THEN NA(m) ELSE IF m.soft THEN Soft(m) ELSE DoBT(m, FALSE)
Begin(m) == IF m.tiny THEN [m EXCEPT !.pc = "tiny"] ELSE Main([m EXCEPT !.tl = FALSE])
Wake(m) == IF m.o.watchdog_shortened_iter_trigger > 0 /\ ~m.wd /\ ~m.goto /\ ~m.tiny /\ ~m.soft /\ ~m.ei /\ m.wdsh >= m.o.watchdog_shortened_iter_trigger
           THEN [m EXCEPT !.pc = "wdstart"] ELSE Begin(m)
PostInit(m) ==
  LET m1 == IF m.swr THEN [m EXCEPT !.goto = TRUE, !.swr = FALSE] ELSE m
      m2 == IF m1.ei /\ m1.resto /\ DLt(m1.o.expect_infeasible_problem_ytol, m1.f.y) THEN [m1 EXCEPT !.goto = TRUE] ELSE m1
      tn == ~m2.goto /\ ~DEq(m2.o.tiny_step_tol, "0") /\ DLe(m2.f.rel, m2.o.tiny_step_tol) /\ DLe(m2.f.th, "1e-4")
      m3 == [m2 EXCEPT !.tiny = tn]
  IN IF m3.wd /\ (m3.goto \/ tn) THEN [m3 EXCEPT !.pc = "wdstop0"] ELSE Wake(m3)
Find(m, e) ==
  LET m1 == [m EXCEPT !.f = e, !.goto = FALSE, !.tiny = FALSE, !.n = 0, !.c = "*", !.ms = FALSE, !.inr = FALSE]
      m2 == IF m.mu # e.mu THEN [m1 EXCEPT !.wd = FALSE, !.wdsh = 0, !.mu = e.mu] ELSE m1
      m3 == IF e.acc THEN [m2 EXCEPT !.acc = e] ELSE m2
      m4 == IF e.sq THEN [m3 EXCEPT !.ctol = "0"] ELSE m3
  IN IF m4.fb THEN IF m4.resto THEN PostInit([m4 EXCEPT !.goto = TRUE, !.fb = FALSE]) ELSE [m4 EXCEPT !.pc = "fb"]
     ELSE [m4 EXCEPT !.pc = "init"]
\* the watchdog is given up: back to where it started
WdStop(m, e) == [m EXCEPT !.wd = FALSE, !.wdsh = 0, !.f = [m.wdf EXCEPT !.th = e.cth, !.upr = e.upr, !.acc = e.acc, !.amax = IF m.wdf.tau = m.f.tau THEN @ ELSE "?"]]

\* outcomes that only the next event shows
SearchEvents == {"fl.init", "fl.wdstart", "fl.wdstop", "fl.amin", "fl.corr", "fl.correnc", "fl.check", "fl.soc", "fl.socend", "fl.update", "fl.prepresto", "fl.restored", "ls.dofb", "resto.start", "resto.end", "ls.end"}
RECURSIVE Resolve(_, _)
Resolve(m, e) ==
  CASE e.e \notin SearchEvents -> m
    [] m.pc = "tiny" /\ e.e \in {"ls.end", "fl.restored"} -> Taken([m EXCEPT !.tl = DLt(m.f.dy, m.o.tiny_step_y_tol)], IF m.tl THEN "T" ELSE "-", "tiny")
    [] m.pc = "tiny" -> Main([m EXCEPT !.tl = DLt(m.f.dy, m.o.tiny_step_y_tol), !.tiny = FALSE])
    [] m.pc = "soft" /\ e.e # "fl.check" -> Resolve(NA(m), e)
    [] m.pc = "soft1" /\ e.e # "fl.check" -> Resolve(NA2(m), e)
    [] m.pc = "softpd" -> IF e.e = "ls.end" /\ Has(e, "c") /\ e.c = "s" THEN Finish(m, "s", "soft", "soft") ELSE Resolve(NA(m), e)
    [] m.pc = "softpd1" -> IF e.e = "ls.end" /\ Has(e, "c") /\ e.c = "s" THEN Finish([m EXCEPT !.soft = TRUE], "s", "soft", "soft") ELSE Resolve(NA2(m), e)
    [] m.pc = "loop" /\ m.o.magic_steps /\ e.e # "fl.check" -> Resolve(BTFail([m EXCEPT !.err = TRUE]), e)
    [] m.pc = "maxs" -> Resolve(BTFail([m EXCEPT !.err = TRUE]), e)
    [] OTHER -> m

\* an outcome that skips the trial of a step needs a failed evaluation (scripted components report them)
Silent(c, m0, e) == IF ~c.scripted \/ e.e \notin SearchEvents THEN TRUE
  ELSE IF (m0.pc \in {"soft", "soft1"} /\ e.e # "fl.check") \/ (m0.pc = "tiny" /\ e.e \notin {"ls.end", "fl.restored"}) \/ m0.pc = "maxs" THEN m0.ef
  ELSE IF m0.pc = "tiny" THEN ~m0.ef ELSE TRUE
SoftLimit(c, m, acc) == IF ~c.scripted THEN TRUE ELSE LET f == m.o.soft_resto_pderror_reduction_factor IN Imp(DLt("1e9", f), acc) /\ Imp(DLt(f, "1e-9"), ~acc)
UP(c) == CASE c = "f" -> "F" [] c = "h" -> "H" [] c = "k" -> "K" [] c = "n" -> "N" [] OTHER -> c
\* may this event come now?  (m already resolved)
Allowed(m, e) ==
  CASE e.e = "ls.find" -> m.pc = "idle"
    [] e.e = "fl.init" -> m.pc = "init" /\ e.wd = m.wd
    [] e.e = "ls.dofb" -> m.pc = "fb"
    [] e.e = "fl.wdstart" -> m.pc = "wdstart"
    [] e.e = "fl.wdstop" -> m.pc \in {"wdstop0", "wdstop1"} \/ (m.pc = "idle" /\ m.wd)
    [] e.e = "fl.amin" -> m.pc = "amin"
    [] e.e = "fl.corr" -> m.pc = "corr"
    [] e.e = "fl.correnc" -> m.pc = "incorr"
    [] e.e = "fl.check" -> m.pc \in {"incorr", "loop", "soc", "soft", "soft1"}
    [] e.e = "fl.soc" -> m.pc = "insoc"
    [] e.e = "fl.socend" -> m.pc = "soc"
    [] e.e = "fl.update" -> m.pc = "update"
    [] e.e = "fl.prepresto" -> m.pc \in {"prep1", "prep2"}
    [] e.e = "fl.restored" -> m.pc = "end" /\ m.x.k = "ok" /\ m.x.kind \in {"bt", "tiny", "soft"}
    [] e.e = "resto.start" -> m.pc = "resto"
    [] e.e = "resto.end" -> m.pc = "inresto"
    [] e.e = "ls.end" -> m.pc = "end" \/ (m.pc = "resto" /\ e.L = 1) \/ (m.pc = "inresto" /\ e.r = "exc" /\ e.x = "Eval_Error")
    [] OTHER -> TRUE
\* the number of silent cuts (evaluation errors) between two step sizes
RECURSIVE Cut(_, _, _, _)
Cut(m, a, b, k) == IF a = "?" THEN 0 ELSE IF Near(a, b) THEN k ELSE IF k > 1500 \/ m.wd THEN -1000 ELSE Cut(m, DMul(a, m.o.alpha_red_factor), b, k + 1)
\* step sizes
AlphaOK(m, e) ==
  CASE e.e = "fl.check" /\ m.pc = "loop" -> IF m.o.magic_steps /\ m.f.amax # "?" THEN Cut(m, m.a, e.a, 0) >= 0 ELSE Near(e.a, m.a) \/ m.f.amax = "?"
    [] e.e = "fl.check" /\ m.pc = "soc" -> e.a = m.at
    [] e.e = "fl.check" /\ m.pc \in {"soft", "soft1"} -> DEq(e.a, "0")
    [] e.e = "fl.corr" -> Near(e.ap, m.amax) /\ (IF m.wd THEN Has(m.wdf, "none") \/ Near(e.a, m.wdf.amax) ELSE Near(e.a, m.amax))
    [] e.e = "fl.soc" -> Near(e.ap, m.a) /\ Near(e.a, m.a)
    [] e.e = "fl.update" -> IF m.ms THEN m.f.amax = "?" \/ Cut(m, m.a, e.a, 0) >= 0 ELSE Near(e.a, m.at)
    [] OTHER -> TRUE
\* second order corrections: at most max_soc, and going on only while the infeasibility falls enough
SocOK(m, e) == IF e.e = "fl.check" /\ m.pc = "soc" /\ Has(m.o, "kappa_soc")
   THEN m.socn < m.o.max_soc /\ Imp(m.socn > 0, DLe(m.socth2, DMul(m.o.kappa_soc, m.socth))) ELSE TRUE

\* fraction to the boundary over pairs of slacks and their changes
RECURSIVE Ftb(_, _, _, _)
Ftb(tau, v, d, a) == IF v = <<>> THEN a ELSE Ftb(tau, Tail(v), Tail(d), IF DLt(d[1], "0") THEN DMin(a, DDiv(DMul(tau, v[1]), DNeg(d[1]))) ELSE a)
Flat(q) == q[1] \o q[2] \o q[3] \o q[4]
Finite(v) == \A k \in 1..Len(v) : DFinite(v[k])
AmaxOK(e) == IF ~Has(e, "sl") THEN TRUE ELSE LET v == Flat(e.sl) d == Flat(e.ds) IN
   IF ~Finite(v) \/ ~Finite(d) THEN TRUE ELSE DNear(e.amax, Ftb(e.tau, v, d, "1"), "1e-10", "1e-300")
Zs(p) == p.zl \o p.zu \o p.vl \o p.vu
AdMax(f) == Ftb(f.tau, Zs(f.cu), Zs(f.dl), "1")
Moved(v, w, a, d) == Len(v) = Len(w) /\ \A k \in 1..Len(v) : IF DFinite(v[k]) /\ DFinite(w[k]) /\ DFinite(d[k])
    THEN DNear(w[k], DAdd(v[k], DMul(a, d[k])), "1e-13", DMul("1e-13", DAdd(DAbs(v[k]), DAbs(DMul(a, d[k]))))) ELSE TRUE
AmaxS(v) == DAmaxSeq(v)
\* the point that is handed over
TrialOK(m, e) ==
  LET f == m.f cu == f.cu dl == f.dl tr == e.tr ap == e.ap ad == e.ad x == m.x
      dn == DMax(AmaxS(dl.x), AmaxS(dl.s))
      ay == CASE m.afy = 0 -> ap [] m.afy = 1 -> ad [] m.afy = 2 -> DMin(ap, ad) [] m.afy = 3 -> DMax(ap, ad) [] m.afy = 4 -> "1"
              [] m.afy = 7 -> IF DLe(dn, m.afytol) THEN "1" ELSE ap [] m.afy = 8 -> IF DLe(dn, m.afytol) THEN "1" ELSE ad [] OTHER -> "?"
      soft == x.kind = "soft"
      both == DMin(f.amax, AdMax(f))
  IN IF ~Has(e, "tr") \/ ~Has(f, "dl") \/ f.amax = "?" \/ m.soc \/ m.corr THEN <<>>
     ELSE << <<"C08.primal_step", IF soft THEN Near(ap, both) ELSE Near(ap, IF x.kind = "tiny" THEN f.amax ELSE m.a)>>,
             <<"C08.dual_step", IF Finite(Zs(cu)) /\ Finite(Zs(dl)) THEN DNear(ad, IF soft THEN both ELSE AdMax(f), "1e-10", "1e-300") ELSE TRUE>>,
             <<"C08.trial_x", Moved(cu.x, tr.x, ap, dl.x) /\ (m.o.magic_steps \/ Moved(cu.s, tr.s, ap, dl.s))>>,
             <<"C08.trial_z", Moved(cu.zl, tr.zl, ad, dl.zl) /\ Moved(cu.zu, tr.zu, ad, dl.zu) /\ Moved(cu.vl, tr.vl, ad, dl.vl) /\ Moved(cu.vu, tr.vu, ad, dl.vu)>>,
             <<"C08.trial_y", IF ay = "?" THEN TRUE ELSE Moved(cu.yc, tr.yc, ay, dl.yc) /\ Moved(cu.yd, tr.yd, ay, dl.yd)>> >>
EndOK(c, m, e) ==
  IF m.pc # "end" THEN <<>>
  ELSE LET x == m.x IN
  IF x.k = "exc" THEN << <<"C08.outcome", e.r = "exc" /\ e.x = x.n>>, <<"C08.restored_point", IF Has(x, "back") /\ Has(e, "cu") /\ e.r = "exc" THEN e.cu = m.acc.cu ELSE TRUE>> >>
  ELSE IF x.k = "skipped" THEN << <<"C08.outcome", e.r = "skipped">> >>
  ELSE << <<"C08.outcome", e.r = "ok" \/ (m.afy = 9 /\ e.r = "exc" /\ e.x = "other")>> >> \o   \* 9: the filter offers no step size for y
     (IF e.r # "ok" THEN <<>> ELSE
      << <<"C08.kind_char", IF x.c = "*" THEN TRUE ELSE IF x.c = "-" THEN e.c # "T" ELSE e.c = x.c>>,
         <<"C08.trial_count", IF x.kind = "bt" THEN e.n = m.n + 1 ELSE IF x.kind = "tiny" THEN e.n = 0 ELSE TRUE>>,
         <<"C08.tiny_flag", IF x.kind = "tiny" /\ x.c = "T" THEN e.tiny ELSE TRUE>>,
         <<"C08.soft_limit", IF x.kind = "soft" /\ x.c = "s" THEN SoftLimit(c, m, TRUE) ELSE TRUE>> >> \o
      (IF x.kind \in {"bt", "tiny", "soft"} /\ x.c # "r" THEN TrialOK(m, e) ELSE <<>>))

Start(c) == <<None, None>>
Check(c, st, e) ==
  IF ~Has(e, "L") \/ e.e \in {"fl.new", "ls.new"} THEN <<>>
  ELSE IF Has(st[e.L + 1], "none") \/ Has(st[e.L + 1], "pend") THEN <<>>
  ELSE IF st[e.L + 1].lost THEN <<>>
  ELSE LET m == Resolve(st[e.L + 1], e) IN
   IF ~Allowed(m, e) THEN IF e.e = "resto.start" THEN << <<"C08.order", FALSE>>, <<"C09.entry", FALSE>> >> ELSE << <<"C08.order", FALSE>> >>
   ELSE << <<"C08.silent", Silent(c, st[e.L + 1], e)>>, <<"C08.alpha", AlphaOK(m, e)>>, <<"C08.soc", SocOK(m, e)>> >>
     \o (IF e.e = "ls.find" THEN << <<"C08.boundary", AmaxOK(e)>> >> ELSE <<>>)
     \o (IF e.e = "ls.end" THEN EndOK(c, m, e) ELSE <<>>)
     \o (IF e.e \in {"fl.prepresto", "ls.end", "resto.start"} /\ st[e.L + 1].pc \in {"softpd", "softpd1"} /\ ~(m.pc = "end" /\ m.x.k = "ok") THEN << <<"C08.soft_limit", SoftLimit(c, m, FALSE)>> >> ELSE <<>>)

After(m, e) ==
  CASE e.e = "ls.find" -> Find(m, e)
    [] e.e = "fl.init" -> PostInit(m)
    [] e.e = "ls.dofb" -> IF e.r THEN Finish([m EXCEPT !.wd = FALSE, !.short = 0, !.wdsh = 0, !.fb = FALSE], "X", "*", "fb") ELSE Exc(m, "STEP_COMPUTATION_FAILED")
    [] e.e = "fl.wdstart" -> Begin([m EXCEPT !.wd = TRUE, !.wdn = 0, !.wdf = m.f])
    [] e.e = "fl.wdstop" -> IF m.pc = "idle" THEN [m EXCEPT !.wd = FALSE, !.wdsh = 0] ELSE IF m.pc = "wdstop0" THEN Wake([WdStop(m, e) EXCEPT !.goto = FALSE, !.tiny = FALSE]) ELSE DoBT(WdStop(m, e), TRUE)
    [] e.e = "fl.amin" -> AfterAmin([m EXCEPT !.amin = e.a])
    [] e.e = "fl.corr" -> [m EXCEPT !.pc = "incorr", !.at = e.a]
    [] e.e = "fl.correnc" -> IF e.r THEN [m EXCEPT !.pc = "update", !.corr = TRUE, !.a = e.a] ELSE Loop(m)
    [] e.e = "fl.check" /\ m.pc = "loop" ->
         LET k == IF m.o.magic_steps /\ m.f.amax # "?" THEN Cut(m, m.a, e.a, 0) ELSE 0   \* a magic step may fail to be evaluated
             m1 == [m EXCEPT !.at = e.a, !.a = e.a, !.n = @ + k, !.err = @ \/ k > 0, !.amax = IF m.f.amax = "?" THEN "?" ELSE @] IN
         IF e.r = "yes" THEN [m1 EXCEPT !.pc = "update"] ELSE Rejected(IF e.r = "err" THEN [m1 EXCEPT !.err = TRUE] ELSE [m1 EXCEPT !.socth2 = e.th], e.th)
    [] e.e = "fl.check" /\ m.pc = "soc" -> [m EXCEPT !.socn = @ + 1, !.socth = m.socth2, !.socth2 = e.th]
    [] e.e = "fl.check" /\ m.pc = "soft" -> IF e.r = "yes" THEN [Taken([m EXCEPT !.soft = FALSE, !.softn = 0], "S", "soft") EXCEPT !.x.ap = "soft"] ELSE IF e.r = "no" THEN [m EXCEPT !.pc = "softpd"] ELSE NA(m)
    [] e.e = "fl.check" /\ m.pc = "soft1" -> IF e.r = "yes" THEN Finish(m, "S", "soft", "soft") ELSE IF e.r = "no" THEN [m EXCEPT !.pc = "softpd1"] ELSE NA2(m)
    [] e.e = "fl.soc" -> [m EXCEPT !.pc = "soc", !.socn = 0, !.at = e.a]
    [] e.e = "fl.socend" -> IF e.r THEN [m EXCEPT !.pc = "update", !.a = e.a] ELSE Shorter([m EXCEPT !.soc = FALSE])
    [] e.e = "fl.update" /\ m.ms -> LET m1 == [m EXCEPT !.ms = FALSE, !.n = @ + Cut(m, m.a, e.a, 0), !.a = e.a] IN Taken(IF m.wd THEN [m1 EXCEPT !.wd = FALSE] ELSE m1, e.c, "bt")
    [] e.e = "fl.update" -> Taken(IF m.wd THEN [m EXCEPT !.wd = FALSE] ELSE m, IF m.soc THEN UP(e.c) ELSE e.c, "bt")
    [] e.e = "fl.prepresto" -> IF m.pc = "prep1" THEN IF SoftOff(m) THEN NA2(m) ELSE [m EXCEPT !.pc = "soft1"] ELSE NA3(m)
    [] e.e = "fl.restored" -> IF e.r THEN [m EXCEPT !.wd = FALSE, !.short = 0, !.wdsh = 0, !.x.c = "r"] ELSE m
    [] e.e = "resto.start" -> [m EXCEPT !.pc = "inresto", !.inr = TRUE]
    [] e.e = "resto.end" -> IF e.r = "true" THEN Finish([m EXCEPT !.short = 0, !.ei = FALSE, !.soft = FALSE, !.softn = 0, !.wdsh = 0], "R", "*", "resto")
                            ELSE IF e.r = "false" THEN IF Has(m.acc, "none") THEN Exc(m, "RESTORATION_FAILED") ELSE End(m, [k |-> "exc", n |-> "ACCEPTABLE_POINT_REACHED", back |-> TRUE])
                            ELSE Exc(m, e.r)
    [] e.e = "ls.end" -> IF m.pc = "resto" THEN [m EXCEPT !.pc = "idle", !.short = 0, !.ei = FALSE, !.soft = FALSE, !.softn = 0, !.wdsh = 0]
                         ELSE [m EXCEPT !.pc = "idle"]
    [] e.e = "ls.reset" -> IF m.pc = "maxs" THEN [m EXCEPT !.soft = FALSE, !.softn = 0, !.pc = "update", !.ms = TRUE] ELSE [m EXCEPT !.soft = FALSE, !.softn = 0]
    [] e.e = "ls.rigorous" -> [m EXCEPT !.rigor = e.r]
    [] e.e = "ls.fallback" -> IF e.r THEN [m EXCEPT !.fb = TRUE, !.rigor = TRUE] ELSE m
    [] OTHER -> m
Step(c, st, e) ==
  IF ~Has(e, "L") THEN st
  ELSE IF e.e = "ls.new" THEN [st EXCEPT ![e.L + 1] = IF Has(@, "pend") THEN New(@.pend, e) @@ [socth2 |-> "0"] ELSE None]
  ELSE IF e.e = "fl.new" THEN [st EXCEPT ![e.L + 1] = [pend |-> e]]
  ELSE LET m0 == st[e.L + 1] IN
   IF Has(m0, "none") \/ Has(m0, "pend") THEN st ELSE IF m0.lost THEN st
   ELSE LET m == Resolve(m0, e) IN
     IF ~Allowed(m, e) THEN [st EXCEPT ![e.L + 1].lost = TRUE]
     ELSE IF e.e = "evalfail" THEN [st EXCEPT ![e.L + 1].ef = TRUE]
     ELSE [st EXCEPT ![e.L + 1] = [After(m, e) EXCEPT !.ef = FALSE]]

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
