-------------------------------- MODULE Mu --------------------------------
(* The update of the barrier parameter mu and of the fraction-to-boundary  *)
(* parameter tau (C10), as a trace specification: monotone and adaptive     *)
(* updates, regular (level 0) and restoration (level 1).                    *)
(* Errors of the barrier problem and the quality measures are computed here *)
(* from the gradients of the Lagrangian, the residuals and the              *)
(* complementarity products at the current point.  Decisions within         *)
(* rounding distance are undetermined: either outcome is allowed.           *)
(* events: mu.new (options), mu.begin, mu.oracle, ls.reset, ls.rigorous,    *)
(* mu.update                                                                *)
EXTENDS TraceKit
VARIABLES t, i, s

T3(b) == IF b THEN "T" ELSE "F"
Not3(a) == IF a = "T" THEN "F" ELSE IF a = "F" THEN "T" ELSE "U"
And3(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" /\ b = "T" THEN "T" ELSE "U"
Or3(a, b) == Not3(And3(Not3(a), Not3(b)))
Le3(a, b, tol) == IF ~DFinite(a) \/ ~DFinite(b) THEN "U" ELSE IF DLe(DAdd(a, tol), b) THEN "T" ELSE IF DLt(DAdd(b, tol), a) THEN "F" ELSE "U"
Cmp(a, b) == Le3(a, b, DMul("1e-12", DAdd(DAbs(a), DAbs(b))))
May(a, S) == IF a = "F" THEN {} ELSE S
D0 == "0"
D1 == "1"
Max3(a, b, c) == DMax(a, DMax(b, c))
MaxAbs(q) == DAmaxSeq(q)
Sum1(q) == DSumSeq([k \in DOMAIN q |-> DAbs(q[k])])
Sum2(q) == DDot(q, q)
N(k) == DOfInt(k)

---------------------------------------------------------------------------
\* errors at a point
Sc(o, q) == IF q.nz = 0 THEN D1 ELSE DDiv(DMax(o.s_max, DDiv(q.z1, N(q.nz))), o.s_max)
Sd(o, q) == IF q.nz + q.ny = 0 THEN D1 ELSE DDiv(DMax(o.s_max, DDiv(DAdd(q.y1, q.z1), N(q.ny + q.nz))), o.s_max)
Dual(q) == DMax(MaxAbs(q.gx), MaxAbs(q.gs))
Primal(q) == DMax(MaxAbs(q.c), MaxAbs(q.dms))
Compl(q, mu) == MaxAbs([k \in DOMAIN q.cp |-> DSub(q.cp[k], mu)])
BarrErr(o, q, mu) == Max3(DDiv(Dual(q), Sd(o, q)), Primal(q), DDiv(Compl(q, mu), Sc(o, q)))
NlpErr(o, q) == Max3(DDiv(Dual(q), Sd(o, q)), q.viol, DDiv(Compl(q, o.mu_target), Sc(o, q)))
Avg(q) == IF q.nz = 0 THEN D0 ELSE DDiv(DSumSeq(q.cp), N(q.nz))
RECURSIVE MinOf(_)
MinOf(q) == IF Len(q) = 1 THEN q[1] ELSE DMin(q[1], MinOf(Tail(q)))
Xi(q) == DDiv(MinOf(q.cp), Avg(q))
NDual(q) == Len(q.gx) + Len(q.gs)
NPri(q) == Len(q.c) + Len(q.dms)
Over(a, n) == IF n = 0 THEN a ELSE DDiv(a, N(n))
OverS(a, n) == IF n = 0 THEN a ELSE DDiv(a, DSqrt(N(n)))
\* quality measure of a point
Parts(o, q) == CASE o.quality_function_norm_type = 0 -> <<Over(DAdd(Sum1(q.gx), Sum1(q.gs)), NDual(q)), Over(DAdd(Sum1(q.c), Sum1(q.dms)), NPri(q)), Over(Sum1(q.cp), q.nz)>>
                 [] o.quality_function_norm_type = 1 -> <<Over(DAdd(Sum2(q.gx), Sum2(q.gs)), NDual(q)), Over(DAdd(Sum2(q.c), Sum2(q.dms)), NPri(q)), Over(Sum2(q.cp), q.nz)>>
                 [] o.quality_function_norm_type = 2 -> <<Dual(q), Primal(q), MaxAbs(q.cp)>>
                 [] OTHER -> <<OverS(DSqrt(DAdd(Sum2(q.gx), Sum2(q.gs))), NDual(q)), OverS(DSqrt(DAdd(Sum2(q.c), Sum2(q.dms))), NPri(q)), OverS(DSqrt(Sum2(q.cp)), q.nz)>>
Quality(o, q) ==
  LET p == Parts(o, q)
      cen == CASE o.quality_function_centrality = 0 -> D0
               [] o.quality_function_centrality = 1 -> DNeg(DMul(p[3], DLog(Xi(q))))
               [] o.quality_function_centrality = 2 -> DDiv(p[3], Xi(q))
               [] OTHER -> DDiv(p[3], DPow(Xi(q), "3"))
      bal == IF o.quality_function_balancing_term = 0 THEN D0 ELSE DPow(DMax(D0, DSub(DMax(p[1], p[2]), p[3])), "3")
  IN DAdd(DAdd(DAdd(p[1], p[2]), DAdd(p[3], cen)), bal)

---------------------------------------------------------------------------
Cit(o, e) == DMul(o.compl_inf_tol, e.df)   \* complementarity tolerance for the scaled problem
Tau(o, mu) == DMax(o.tau_min, DSub(D1, mu))
Floor(o, e) == DDiv(DMin(e.tol, Cit(o, e)), DAdd(o.barrier_tol_factor, D1))
Reduced(o, e, mu) == Max3(DMin(DMul(o.mu_linear_decrease_factor, mu), DPow(mu, o.mu_superlinear_decrease_power)), o.mu_target, Floor(o, e))
Solved(o, q, mu) == Cmp(BarrErr(o, q, mu), DMul(o.barrier_tol_factor, mu))

\* outcomes: <<result, mu, free mode, tau, whether the line search forgets, rigorous>>
\* result "ok" or "tiny" (solved as well as possible)
RECURSIVE Mono(_, _, _, _, _)
Mono(m, e, mu, tiny, ch) ==
  LET o == m.o
      stop == <<"ok", mu, e.free0, IF ch THEN Tau(o, mu) ELSE e.tau0, ch>>
      c == IF tiny THEN "T" ELSE Solved(o, e.q, mu)
      nm == Reduced(o, e, mu)
      go == IF DEq(nm, mu) THEN (IF tiny THEN {<<"tiny", mu, e.free0, e.tau0, FALSE>>} ELSE {[stop EXCEPT ![4] = Tau(o, mu)]})
            ELSE IF m.n > 0 /\ ~o.fast THEN {<<"ok", nm, e.free0, Tau(o, nm), TRUE>>}
            ELSE Mono(m, e, nm, FALSE, TRUE)
  IN IF m.first THEN {stop} ELSE May(Not3(c), {stop}) \cup May(c, go)

---------------------------------------------------------------------------
MuMin(m, e) == IF m.o.mu_min_set THEN m.o.mu_min ELSE DMin(m.mumin, DMul("0.5", DMin(e.tol, Cit(m.o, e))))
MuMax(m, e) == IF m.o.mu_max_set THEN m.o.mu_max ELSE IF m.mumax = "none" THEN DMul(m.o.mu_max_fact, Avg(e.q)) ELSE m.mumax
RECURSIVE AnyLe(_, _, _)
AnyLe(v, f, R) == IF R = <<>> THEN "F" ELSE Or3(Cmp(v, DMul(f, R[1])), AnyLe(v, f, Tail(R)))
RECURSIVE AccF(_, _, _)
AccF(F, f, th) == IF F = <<>> THEN "T" ELSE And3(Or3(Cmp(f, F[1][1]), Cmp(th, F[1][2])), AccF(Tail(F), f, th))
Glob(o) == CASE o.adaptive_mu_globalization = 0 -> "kkt" [] o.adaptive_mu_globalization = 1 -> "filter" [] OTHER -> "never"
Progress(m, q) == LET o == m.o IN
  CASE Glob(o) = "kkt" -> IF Len(m.refs) < o.red_iters THEN "T" ELSE AnyLe(Quality(o, q), o.adaptive_mu_kkterror_red_fact, m.refs)
    [] Glob(o) = "filter" -> LET g == DMul(o.filter_margin_fact, DMin(o.filter_max_margin, NlpErr(o, q))) IN AccF(m.F, DAdd(q.f, g), DAdd(q.th, g))
    [] OTHER -> "T"
Last(q, k) == IF Len(q) > k THEN SubSeq(q, Len(q) - k + 1, Len(q)) ELSE q
Remember(m, q) == [m EXCEPT !.refs = IF Glob(m.o) = "kkt" THEN Last(Append(@, Quality(m.o, q)), m.o.red_iters) ELSE @,
                            !.F = IF Glob(m.o) = "filter" THEN Append(@, <<q.f, q.th>>) ELSE @,
                            !.acc = IF m.o.restore THEN <<q.x, q.s, q.cp>> ELSE @]
Infs(q) == <<Over(DAdd(Sum1(q.gx), Sum1(q.gs)), NDual(q)), Over(DAdd(Sum1(q.c), Sum1(q.dms)), NPri(q))>>
InitInfs(m, q) == IF m.infs # <<>> THEN m.infs ELSE <<DMax(D1, Infs(q)[1]), DMax(D1, Infs(q)[2])>>
Safeguard(m, q) == LET f == m.o.adaptive_mu_safeguard_factor a == Infs(q) b == InitInfs(m, q) IN
  IF DEq(f, D0) THEN D0
  ELSE LET v == DMax(DMul(f, DDiv(a[1], b[1])), DMul(f, DDiv(a[2], b[2]))) IN IF Glob(m.o) = "kkt" /\ m.refs # <<>> THEN DMin(v, MinOf(m.refs)) ELSE v
Orc(m, fixed) == SelectSeq(m.orc, LAMBDA a : a.fixed = fixed)

\* a new value for the fixed mode
NewFixed(m, e, q) ==
  LET f == Orc(m, TRUE)
      v == IF f # <<>> THEN (IF f[1].r THEN f[1].mu ELSE DMul(m.o.adaptive_mu_monotone_init_factor, Avg(q))) ELSE DMul(m.o.adaptive_mu_monotone_init_factor, Avg(q))
      w == DMin(DMax(v, Safeguard(m, q)), DMul("0.1", "1e20"))
  IN DMin(Max3(w, MuMin(m, e), m.o.mu_target), MuMax(m, e))
ToFixed(m, e) == LET q == IF e.moved THEN e.q1 ELSE e.q nm == NewFixed(m, e, q) IN
  May(And3(T3(e.tiny0), IF DNear(nm, e.mu0, "1e-12", "0") THEN "U" ELSE "F"), {<<"tiny", e.mu0, FALSE, e.tau0, FALSE>>})
  \cup May(Not3(And3(T3(e.tiny0), T3(DEq(nm, e.mu0)))), {<<"ok", nm, FALSE, Tau(m.o, nm), TRUE>>})
StayFixed(m, e) ==
  LET o == m.o c == IF e.tiny0 THEN "T" ELSE Solved(o, e.q, e.mu0)
      nm == DMax(Reduced(o, e, e.mu0), MuMin(m, e))
  IN May(Not3(c), {<<"ok", e.mu0, FALSE, e.tau0, FALSE>>})
     \cup May(c, IF e.tiny0 /\ DEq(nm, e.mu0) THEN {<<"tiny", e.mu0, FALSE, e.tau0, FALSE>>} ELSE {<<"ok", nm, FALSE, Tau(o, nm), TRUE>>})
\* in free mode the oracle decides within the limits
Free(m0, e) == LET m == Remember(m0, e.q) f == Orc(m, FALSE) o == m.o
                   w == IF f = <<>> THEN "NaN" ELSE DMin(DMax(Max3(f[1].mu, MuMin(m, e), o.mu_target), Safeguard(m, e.q)), MuMax(m, e)) IN
  IF f = <<>> THEN {} ELSE IF ~f[1].r THEN {<<"false", e.mu0, TRUE, Tau(o, NlpErr(o, e.q)), FALSE>>} ELSE {<<"ok", w, TRUE, Tau(o, NlpErr(o, e.q)), TRUE>>}
Adaptive(m, e) ==
  LET o == m.o p == Progress(m, e.q) IN
  IF m.nob \/ (m.n = 0 /\ e.q.nz = 0) THEN (IF m.n = 0 THEN {<<"ok", MuMin(m, e), e.free0, o.tau_min, FALSE>>} ELSE {<<"ok", e.mu0, e.free0, e.tau0, FALSE>>})
  ELSE IF ~e.free0 THEN May(And3(p, T3(~e.tiny0)), Free(m, e)) \cup May(Not3(And3(p, T3(~e.tiny0))), StayFixed(m, e))
  ELSE LET g == And3(p, T3(~(Glob(o) # "never" /\ (e.skipped \/ e.tiny0)))) IN May(g, Free(m, e)) \cup May(Not3(g), ToFixed(m, e))

---------------------------------------------------------------------------
New(e, hl) == [o |-> e, n |-> 0, first |-> e.L = 1 /\ e.kind = "monotone", refs |-> <<>>, F |-> <<>>, mumin |-> IF e.L = 1 THEN DMul("100", e.mu_min) ELSE e.mu_min, mumax |-> "none", infs |-> <<>>,
               acc |-> <<>>, nob |-> FALSE, orc |-> <<>>, res |-> 0, rig |-> FALSE, hasls |-> hl]
None == [hasls |-> FALSE]
Start(c) == <<None, None>>
Lv(m, e) == m[e.L + 1]

\* the reset may be seen only where the line search is observed
Fits(m, e, w) == e.r = w[1] /\ DNear(e.mu, w[2], "1e-10", "0") /\ (e.r = "ok" => DNear(e.tau, w[4], "1e-10", "0")) /\ e.free = w[3]
FitsReset(m, w) == ~m.hasls \/ w[1] # "ok" \/ (w[5] = (m.res > 0))

Check(c, st, e) ==
  IF e.e = "mu.new" THEN
    << <<"C10.initial", IF e.kind = "monotone" THEN DEq(e.mu0, e.mu_init) /\ DEq(e.tau0, Tau(e, e.mu_init)) ELSE e.free0>> >>
  ELSE IF e.e = "mu.update" THEN
    LET m == Lv(st, e) o == m.o IN
    IF ~e.q.ok \/ e.r = "exc" THEN <<>>
    ELSE LET S == IF o.kind = "monotone" THEN Mono(m, e, e.mu0, e.tiny0, FALSE) ELSE Adaptive(m, e)
             W == {w \in S : Fits(m, e, w)}
             f == Orc(m, FALSE) g == Orc(m, TRUE)
             \* slacks of the restored point were corrected meanwhile (they depend on mu)
             amb == IF ~e.moved \/ m.acc = <<>> THEN FALSE ELSE IF ~e.q1.ok THEN TRUE ELSE e.q1.cp # m.acc[3]
         IN << <<"C10.update", amb \/ W # {}>>,
               <<"C10.reset", W = {} \/ (\E w \in W : FitsReset(m, w))>>,
               <<"C10.rigorous", IF ~m.hasls \/ o.kind = "monotone" \/ e.r # "ok" \/ e.free THEN TRUE ELSE m.rig>>,
               <<"C10.tiny_flag", ~e.tiny \/ m.nob \/ (m.n = 0 /\ e.q.nz = 0)>>,
               <<"C10.moved", IF e.moved THEN o.kind = "adaptive" /\ o.restore /\ e.free0 /\ ~e.free /\ e.q1.ok /\ (IF m.acc = <<>> THEN FALSE ELSE m.acc[1] = e.q1.x /\ m.acc[2] = e.q1.s)
                              ELSE IF o.kind = "adaptive" /\ o.restore /\ e.free0 /\ ~e.free /\ m.acc # <<>> THEN m.acc[1] = e.q.x /\ m.acc[2] = e.q.s ELSE TRUE>>,
               <<"C10.oracle_limits", IF f = <<>> THEN TRUE ELSE DNear(f[1].lo, DMax(MuMin(m, e), o.mu_target), "1e-12", "0") /\ DNear(f[1].hi, MuMax(m, e), "1e-10", "0")>>,
               <<"C10.fixed_oracle_limits", IF g = <<>> THEN TRUE ELSE DNear(g[1].lo, DMax(MuMin(m, e), o.mu_target), "1e-12", "0") /\ DNear(g[1].hi, MuMax(m, e), "1e-10", "0")>>,
               <<"C10.loqo", IF f = <<>> THEN TRUE ELSE IF f[1].kind # "loqo" THEN TRUE
                             ELSE LET a == Avg(e.q) x == Xi(e.q) v == DMul(DMul("0.1", DPow(DMin(DDiv(DMul("0.05", DSub(D1, x)), x), "2"), "3")), a)
                                  IN DNear(f[1].mu, DMax(DMin(f[1].hi, v), f[1].lo), "1e-6", DMul("1e-30", a))>> >>
  ELSE <<>>

StepL(m, e) ==
  CASE e.e = "mu.begin" -> [m EXCEPT !.orc = <<>>, !.res = 0, !.rig = FALSE]
    [] e.e = "mu.oracle" -> [m EXCEPT !.orc = Append(@, e)]
    [] e.e = "ls.reset" -> IF Has(m, "o") THEN [m EXCEPT !.hasls = TRUE, !.res = @ + 1] ELSE [m EXCEPT !.hasls = TRUE]
    [] e.e = "ls.rigorous" -> IF Has(m, "o") THEN [m EXCEPT !.hasls = TRUE, !.rig = e.r] ELSE [m EXCEPT !.hasls = TRUE]
    [] e.e = "ls.new" -> [m EXCEPT !.hasls = TRUE]
    [] e.e = "mu.update" ->
         LET o == m.o
             m1 == [m EXCEPT !.n = @ + 1, !.first = FALSE]
         IN IF ~e.q.ok \/ o.kind = "monotone" THEN m1
            ELSE LET m2 == [m1 EXCEPT !.mumin = MuMin(m, e), !.mumax = MuMax(m, e), !.nob = @ \/ (m.n = 0 /\ e.q.nz = 0)]
                     m3 == IF m2.nob THEN m2 ELSE IF e.free THEN Remember(m2, e.q) ELSE m2
                 IN IF e.moved /\ ~e.q1.ok THEN m3 ELSE [m3 EXCEPT !.infs = IF m2.nob THEN @ ELSE InitInfs(m, IF e.moved THEN e.q1 ELSE e.q)]
    [] OTHER -> m
Step(c, st, e) ==
  IF ~Has(e, "L") THEN st
  ELSE LET k == e.L + 1 IN
       IF e.e = "mu.new" THEN [st EXCEPT ![k] = New(e, st[k].hasls)] ELSE IF Has(st[k], "o") \/ e.e \in {"ls.new", "ls.reset", "ls.rigorous"} THEN [st EXCEPT ![k] = StepL(@, e)] ELSE st

---------------------------------------------------------------------------
Init == t \in 1..Len(Traces) /\ i = 0 /\ s = Start(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
