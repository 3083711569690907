------------------------------ MODULE Adapter ------------------------------
(* The conversion of the user's problem into the internal one and back      *)
(* (property C18), checked on TNLPAdapter by itself.  cfg is the user's     *)
(* problem; an event is one request to the adapter with its answer and the  *)
(* user's functions at the user's point that belongs to the internal point. *)
EXTENDS TraceKit
VARIABLES t, i, s

N(a, b) == DNear(a, b, "1e-12", "1e-12")
SeqN(a, b) == Len(a) = Len(b) /\ \A p \in 1..Len(b) : N(a[p], b[p])
Iota(n) == [k \in 1..n |-> k]
Derive(c) ==
  LET fx == [k \in 1..c.n |-> DEq(c.xl[k], c.xu[k])]
      eq == [k \in 1..c.m |-> DEq(c.gl[k], c.gu[k])]
      bad == (\E k \in 1..c.n : DLt(c.xu[k], c.xl[k])) \/ (\E k \in 1..c.m : DLt(c.gu[k], c.gl[k]))
      nfx == Cardinality({k \in 1..c.n : fx[k]})
      neq == Cardinality({k \in 1..c.m : eq[k]})
      \* too few degrees of freedom: the fixed variables are kept and their bounds relaxed
      tr == IF nfx = 0 THEN c.treat
            ELSE IF (c.treat \in {"p", "nd"} /\ c.n - nfx < neq /\ c.n > nfx) \/ (c.treat = "c" /\ c.n < neq) THEN "r"
            ELSE c.treat
      elim == [k \in 1..c.n |-> fx[k] /\ tr \in {"p", "nd"}]
      xv == SelectSeq(Iota(c.n), LAMBDA k : ~elim[k])
      ce == SelectSeq(Iota(c.m), LAMBDA k : eq[k])
      di == SelectSeq(Iota(c.m), LAMBDA k : ~eq[k])
      cf == IF tr = "c" THEN SelectSeq(Iota(c.n), LAMBDA k : fx[k]) ELSE <<>>
      hasl(k) == IF fx[k] THEN tr = "r" ELSE DLt(c.linf, c.xl[k])
      hasu(k) == IF fx[k] THEN tr = "r" ELSE DLt(c.xu[k], c.uinf)
      widen(b) == DMul(DMax("1e-8", c.brf), DMax("1", DAbs(b)))
  IN [bad |-> bad, fx |-> fx, tr |-> tr, elim |-> elim, xv |-> xv, ce |-> ce, di |-> di, cf |-> cf,
      lb |-> SelectSeq(Iota(Len(xv)), LAMBDA p : hasl(xv[p])), ub |-> SelectSeq(Iota(Len(xv)), LAMBDA p : hasu(xv[p])),
      dlb |-> SelectSeq(Iota(Len(di)), LAMBDA p : DLt(c.linf, c.gl[di[p]])), dub |-> SelectSeq(Iota(Len(di)), LAMBDA p : DLt(c.gu[di[p]], c.uinf)),
      lo |-> [k \in 1..c.n |-> IF fx[k] /\ tr = "r" THEN DSub(c.xl[k], widen(c.xl[k])) ELSE c.xl[k]],
      up |-> [k \in 1..c.n |-> IF fx[k] /\ tr = "r" THEN DAdd(c.xu[k], widen(c.xu[k])) ELSE c.xu[k]]]

\* the user's point of internal point x
Full(c, d, x) == [k \in 1..c.n |-> IF d.elim[k] THEN c.xl[k] ELSE x[CHOOSE p \in 1..Len(d.xv) : d.xv[p] = k]]
J(c, e, r, k) == e.uj[(r - 1) * c.n + k]
SpacesOK(c, d, e) ==
  IF d.bad THEN << <<"C18.reject_inconsistent_bounds", e.rej = "inconsistent">> >>
  ELSE IF e.rej # "" THEN << <<"C18.rejected", FALSE>> >>
  ELSE << <<"C18.dimensions", e.nx = Len(d.xv) /\ e.nc = Len(d.ce) + Len(d.cf) /\ e.nd = Len(d.di) /\ e.jcr = e.nc /\ e.jdr = e.nd /\ e.jcc = e.nx /\ e.jdc = e.nx /\ e.h = e.nx>>,
          <<"C18.which_bounds", e.pxl = d.lb /\ e.pxu = d.ub /\ e.pdl = d.dlb /\ e.pdu = d.dub>>,
          <<"C18.x_bounds", e.bok /\ SeqN(e.xl, [p \in 1..Len(d.lb) |-> d.lo[d.xv[d.lb[p]]]]) /\ SeqN(e.xu, [p \in 1..Len(d.ub) |-> d.up[d.xv[d.ub[p]]]])>>,
          <<"C18.d_bounds", SeqN(e.dl, [p \in 1..Len(d.dlb) |-> c.gl[d.di[d.dlb[p]]]]) /\ SeqN(e.du, [p \in 1..Len(d.dub) |-> c.gu[d.di[d.dub[p]]]])>>,
          <<"C18.nonlinear_variables",
              LET want == SelectSeq(c.nlorder, LAMBDA k : ~d.elim[k])
                  idx == [p \in 1..Len(want) |-> CHOOSE r \in 1..Len(d.xv) : d.xv[r] = want[p]] IN
              IF ~c.hasnl \/ Len(want) = Len(d.xv) THEN e.approx = <<-1>> /\ e.apdim = -1
              ELSE IF e.approx = <<-1>> THEN FALSE ELSE e.approx = idx /\ e.apdim = Len(idx)>>,
          <<"C22.given_factors", IF ~Has(e, "so") THEN TRUE ELSE
              /\ N(e.so, c.so)
              /\ (IF c.hassx THEN (IF e.sx = <<"none">> THEN FALSE ELSE SeqN(e.sx, [p \in 1..Len(d.xv) |-> c.sx[d.xv[p]]])) ELSE e.sx = <<"none">>)
              /\ (IF c.hassg THEN (IF e.sc = <<"none">> THEN FALSE ELSE SeqN(e.sc, [p \in 1..Len(d.ce) |-> c.sg[d.ce[p]]] \o [p \in 1..Len(d.cf) |-> "1"]) /\ SeqN(e.sd, [p \in 1..Len(d.di) |-> c.sg[d.di[p]]]))
                             ELSE e.sc = <<"none">> /\ e.sd = <<"none">>)>> >>

ZL0(c, k) == c.zl0[k]
StartOK(c, d, e) ==
  LET w(b) == (e.w \div b) % 2 = 1
      need(b, got, want) == IF w(b) THEN SeqN(got, want) ELSE \A p \in 1..Len(got) : DEq(got[p], "77") IN
  << <<"C18.start_x", e.ok /\ need(1, e.sx, [p \in 1..Len(d.xv) |-> c.x0[d.xv[p]]])>>,
     <<"C18.start_y_c", need(2, e.yc, [p \in 1..Len(d.ce) |-> c.lam0[d.ce[p]]] \o [p \in 1..Len(d.cf) |-> DSub(c.zu0[d.cf[p]], c.zl0[d.cf[p]])])>>,
     <<"C18.start_y_d", need(4, e.yd, [p \in 1..Len(d.di) |-> c.lam0[d.di[p]]])>>,
     <<"C18.start_z_L", need(8, e.zl, [p \in 1..Len(d.lb) |-> c.zl0[d.xv[d.lb[p]]]])>>,
     <<"C18.start_z_U", need(16, e.zu, [p \in 1..Len(d.ub) |-> c.zu0[d.xv[d.ub[p]]]])>> >>

\* where multiplier p of a list of internal positions lands in the user's order; 0 elsewhere
Scatter(c, d, S, z, k) == LET P == {p \in 1..Len(S) : d.xv[S[p]] = k} IN IF P = {} THEN "0" ELSE z[CHOOSE p \in P : TRUE]
FinalOK(c, d, e) ==
  LET lam(k) == IF \E p \in 1..Len(d.ce) : d.ce[p] = k THEN e.yc[CHOOSE p \in 1..Len(d.ce) : d.ce[p] = k] ELSE e.yd[CHOOSE p \in 1..Len(d.di) : d.di[p] = k]
      gr(k) == DAdd(e.udf[k], DSumSeq([r \in 1..c.m |-> DMul(e.flam[r], J(c, e, r, k))]))
      tail(k) == e.yc[Len(d.ce) + (CHOOSE p \in 1..Len(d.cf) : d.cf[p] = k)]
      zl(k) == IF ~d.fx[k] \/ d.tr = "r" THEN Scatter(c, d, d.lb, e.zl, k) ELSE IF d.tr = "c" THEN DMax("0", DNeg(tail(k))) ELSE IF d.tr = "nd" THEN "0" ELSE DMax("0", gr(k))
      zu(k) == IF ~d.fx[k] \/ d.tr = "r" THEN Scatter(c, d, d.ub, e.zu, k) ELSE IF d.tr = "c" THEN DMax("0", tail(k)) ELSE IF d.tr = "nd" THEN "0" ELSE DMax("0", DNeg(gr(k)))
  IN << <<"C18.final_once", e.nfin = 1>>,
        <<"C18.final_x", SeqN(e.fx, Full(c, d, e.x))>>,
        <<"C18.final_g", SeqN(e.fg, e.ug)>>,
        <<"C18.final_lambda", \A k \in 1..c.m : N(e.flam[k], lam(k))>>,
        \* multipliers of eliminated variables need exact derivatives
        <<"C18.final_z_L", \A k \in 1..c.n : (d.elim[k] /\ (c.fdj \/ c.fdg)) \/ N(e.fzl[k], zl(k))>>,
        <<"C18.final_z_U", \A k \in 1..c.n : (d.elim[k] /\ (c.fdj \/ c.fdg)) \/ N(e.fzu[k], zu(k))>> >>

\* derivatives approximated by finite differences: exact up to the perturbation error
SeqND(c, a, b, fd) == IF fd THEN Len(a) = Len(b) /\ \A p \in 1..Len(b) : DNear(a[p], b[p], "1e-5", "2e-3") ELSE SeqN(a, b)
EvalOK(c, d, e) ==
  LET nx == Len(d.xv)
      lam(k) == IF \E p \in 1..Len(d.ce) : d.ce[p] = k THEN e.yc[CHOOSE p \in 1..Len(d.ce) : d.ce[p] = k] ELSE e.yd[CHOOSE p \in 1..Len(d.di) : d.di[p] = k] IN
  << <<"C18.evaluates", e.ok>>, <<"C18.full_point", SeqN(e.ux, Full(c, d, e.x))>>,
     \* points used for finite differences do not exceed the upper bounds (unless the point itself does)
     <<"C18.points", \A q \in 1..Len(e.np) : \A k \in 1..c.n : IF DLe(e.ux[k], c.xu[k]) /\ DLt(c.xl[k], c.xu[k]) THEN DLe(e.np[q][k], c.xu[k]) ELSE TRUE>>,
     <<"C18." \o e.e,
       CASE e.e = "f" -> N(e.v, e.uf)
         [] e.e = "gradf" -> SeqND(c, e.v, [p \in 1..nx |-> e.udf[d.xv[p]]], c.fdg)
         [] e.e = "c" -> SeqN(e.v, [p \in 1..Len(d.ce) |-> DSub(e.ug[d.ce[p]], c.gl[d.ce[p]])] \o [p \in 1..Len(d.cf) |-> DSub(e.ux[d.cf[p]], c.xl[d.cf[p]])])
         [] e.e = "d" -> SeqN(e.v, [p \in 1..Len(d.di) |-> e.ug[d.di[p]]])
         [] e.e = "jc" -> SeqND(c, e.v, [q \in 1..((Len(d.ce) + Len(d.cf)) * nx) |-> LET r == ((q - 1) \div nx) + 1 k == d.xv[((q - 1) % nx) + 1] IN
                                  IF r <= Len(d.ce) THEN J(c, e, d.ce[r], k) ELSE IF d.cf[r - Len(d.ce)] = k THEN "1" ELSE "0"], c.fdj)
         [] e.e = "jd" -> SeqND(c, e.v, [q \in 1..(Len(d.di) * nx) |-> J(c, e, d.di[((q - 1) \div nx) + 1], d.xv[((q - 1) % nx) + 1])], c.fdj)
         [] e.e = "h" -> SeqN(e.v, [q \in 1..(nx * nx) |-> LET a == d.xv[((q - 1) \div nx) + 1] b == d.xv[((q - 1) % nx) + 1] at == (a - 1) * c.n + b IN
                                  DAdd(DMul(e.of, e.uho[at]), DSumSeq([k \in 1..c.m |-> DMul(lam(k), e.uhc[k][at])]))])>> >>

Check(c, d, e) ==
  IF e.e = "skip" THEN <<>>
  ELSE IF e.e = "spaces" THEN SpacesOK(c, d, e)
  ELSE IF e.e = "start" THEN StartOK(c, d, e)
  ELSE IF e.e = "final" THEN FinalOK(c, d, e)
  ELSE EvalOK(c, d, e)

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = Derive(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ Report(t, i + 1, Check(Traces[t].cfg, s, Traces[t].ev[i + 1]))
        /\ i' = i + 1 /\ UNCHANGED <<t, s>>
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
