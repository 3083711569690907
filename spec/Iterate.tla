------------------------------ MODULE Iterate ------------------------------
(* What the user is told about every iterate, as a function of the user's   *)
(* own problem data and of the solver's internal (scaled) iterate           *)
(* (properties C04, C05, C06, C18, C20, C22).                               *)
(* A run's cfg holds the user's problem: n, m, bounds xl xu gl gu, the      *)
(* treatment of fixed variables (p: eliminated, nd: eliminated without      *)
(* multipliers, c: constraint, r: relaxed), scaling (meth, so, sx, sg) and  *)
(* the tolerances.  Numbers are doubles as strings (module Doubles).        *)
(* Events: start (user's derivatives at the starting point), pt (a point at *)
(*   which some user function was evaluated), iter (one iterate: the query  *)
(*   results cur/curs/vio/vios, the internal iterate in/rin and the user's  *)
(*   functions uf ug udf uj at the reported point), final, end.             *)
EXTENDS TraceKit
VARIABLES t, i, s

TINY == "1e-9"
N1(a, b) == DNear(a, b, "1e-9", "1e-9")
NS(a, b, scale) == DNear(a, b, "1e-9", DMul("1e-9", DAdd("1", DAbs(scale))))
SumAbs(v) == DSumSeq([k \in 1..Len(v) |-> DAbs(v[k])])
Fin(b) == DLt(DAbs(b), "1e19")
HasLo(b) == DLt("-1e19", b)
HasUp(b) == DLt(b, "1e19")
Pos(a) == DMax("0", a)
Neg(a) == DMax("0", DNeg(a))
Sel(S, P) == SelectSeq(S, LAMBDA k : P[k])
Iota(n) == [k \in 1..n |-> k]
IndexIn(S, k) == CHOOSE p \in 1..Len(S) : S[p] = k
Near3(x, y, sc) == DNear(x, y, "1e-9", DMul("1e-9", sc))

----------------------------------------------------------------------------
(* The internal problem that belongs to the user's problem.                 *)
Derive(c) ==
  LET fx == [k \in 1..c.n |-> DEq(c.xl[k], c.xu[k])]
      eq == [k \in 1..c.m |-> DEq(c.gl[k], c.gu[k])]
      iq == [k \in 1..c.m |-> ~eq[k]]
      nfx == Cardinality({k \in 1..c.n : fx[k]})
      neq == Cardinality({k \in 1..c.m : eq[k]})
      tr == IF nfx = 0 THEN c.treat
            ELSE IF (c.treat \in {"p", "nd"} /\ c.n - nfx < neq /\ c.n > nfx) \/ (c.treat = "c" /\ c.n < neq) THEN "r"
            ELSE c.treat
      elim == [k \in 1..c.n |-> fx[k] /\ tr \in {"p", "nd"}]
      rel == [k \in 1..c.n |-> fx[k] /\ tr = "r"]
      widen(b) == DMul(DMax("1e-8", c.brf), DMax("1", DAbs(b)))
      lo == [k \in 1..c.n |-> IF rel[k] THEN DSub(c.xl[k], widen(c.xl[k])) ELSE c.xl[k]]
      up == [k \in 1..c.n |-> IF rel[k] THEN DAdd(c.xu[k], widen(c.xu[k])) ELSE c.xu[k]]
      hasl == [k \in 1..c.n |-> HasLo(c.xl[k]) /\ (~fx[k] \/ tr = "r")]
      hasu == [k \in 1..c.n |-> HasUp(c.xu[k]) /\ (~fx[k] \/ tr = "r")]
      slack(b) == IF DLt("0", c.brf) THEN DMin(c.cvt, DMul(c.brf, DMax("1", DAbs(b)))) ELSE "0"
      xv == SelectSeq(Iota(c.n), LAMBDA k : ~elim[k])
      ce == SelectSeq(Iota(c.m), LAMBDA k : eq[k])
      di == SelectSeq(Iota(c.m), LAMBDA k : iq[k])
  IN [fx |-> fx, eq |-> eq, tr |-> tr, elim |-> elim, lo |-> lo, up |-> up, hasl |-> hasl, hasu |-> hasu,
      rlo |-> [k \in 1..c.n |-> DSub(lo[k], slack(lo[k]))], rup |-> [k \in 1..c.n |-> DAdd(up[k], slack(up[k]))],
      rgl |-> [k \in 1..c.m |-> DSub(c.gl[k], slack(c.gl[k]))], rgu |-> [k \in 1..c.m |-> DAdd(c.gu[k], slack(c.gu[k]))],
      xv |-> xv, ce |-> ce, di |-> di, cf |-> IF tr = "c" THEN SelectSeq(Iota(c.n), LAMBDA k : fx[k]) ELSE <<>>,
      lb |-> SelectSeq(xv, LAMBDA k : hasl[k]), ub |-> SelectSeq(xv, LAMBDA k : hasu[k]),
      dl |-> SelectSeq(di, LAMBDA k : HasLo(c.gl[k])), du |-> SelectSeq(di, LAMBDA k : HasUp(c.gu[k])),
      so |-> DMul(c.osf, c.so), sx |-> c.sx, sg |-> c.sg, known |-> c.meth # "gradient-based"]

\* the documented rule of gradient-based scaling, from the derivatives at the starting point
GradScale(c, d, e) ==
  LET gmax == DAmaxSeq([p \in 1..Len(d.xv) |-> e.udf[d.xv[p]]])
      so == DMax(c.smin, IF DEq(c.stgo, "0") THEN (IF DLt(c.smax, gmax) THEN DDiv(c.smax, gmax) ELSE "1")
                         ELSE IF DEq(gmax, "0") THEN "1" ELSE DDiv(c.stgo, gmax))
      row(k) == DMax("2.2250738585072014e-308", DAmaxSeq([p \in 1..Len(d.xv) |-> e.uj[(k - 1) * c.n + d.xv[p]]]))
      grp(S, extra) == LET mx == DAmaxSeq([p \in 1..Len(S) |-> row(S[p])]) mxx == IF extra THEN DMax("1", mx) ELSE mx IN
             [k \in 1..c.m |-> IF ~(\E p \in 1..Len(S) : S[p] = k) THEN "1"
                               ELSE IF DLt("0", c.stgc) THEN DMax(c.smin, DDiv(c.stgc, mxx))
                               ELSE IF DLt(c.smax, mxx) THEN DMax(c.smin, DMin("1", DDiv(c.smax, row(k)))) ELSE "1"]
      gc == grp(d.ce, d.cf # <<>>) gd == grp(d.di, FALSE)
  IN [d EXCEPT !.so = DMul(c.osf, so), !.sg = [k \in 1..c.m |-> IF d.eq[k] THEN gc[k] ELSE gd[k]], !.known = e.ufin /\ ~c.fd /\ ~(d.cf # <<>> /\ DLt("0", c.stgc))]

Start(c) == [d |-> Derive(c), it |-> -1, mode |-> 0, dec |-> <<>>, acnt |-> 0, anyacc |-> FALSE, lastf |-> "-1e50", currf |-> "-1e50", oiter |-> -1,
             last |-> [none |-> TRUE], x |-> <<>>, blo |-> <<>>, bup |-> <<>>, sd |-> "1", stop |-> FALSE]

----------------------------------------------------------------------------
JTL(c, e, lam, k) == DSumSeq([r \in 1..c.m |-> DMul(lam[r], e.uj[(r - 1) * c.n + k])])
JTLa(c, e, lam, k) == DSumSeq([r \in 1..c.m |-> DAbs(DMul(lam[r], e.uj[(r - 1) * c.n + k]))])

(* C20: the unscaled answer, from the user's functions at the reported point *)
GradLag(c, e, q, k) == DAdd(DAdd(e.udf[k], JTL(c, e, q.lam, k)), DSub(q.zu[k], q.zl[k]))
Mag(c, e, q, k) == DAdd(DAdd("1", DAbs(e.udf[k])), DAdd(JTLa(c, e, q.lam, k), DAdd(DAbs(q.zl[k]), DAbs(q.zu[k]))))

FixedMult(c, d, e, k) == DAdd(e.udf[k], JTL(c, e, e.cur.lam, k))
ZFixed(c, d, e) ==
  \A k \in 1..c.n : IF d.fx[k] /\ d.tr = "nd" THEN DEq(e.cur.zl[k], "0") /\ DEq(e.cur.zu[k], "0")
                    ELSE IF d.fx[k] /\ d.tr = "p"
                    THEN /\ Near3(e.cur.zl[k], Pos(FixedMult(c, d, e, k)), Mag(c, e, e.cur, k))
                         /\ Near3(e.cur.zu[k], Neg(FixedMult(c, d, e, k)), Mag(c, e, e.cur, k))
                    ELSE /\ Imp(~d.hasl[k] /\ ~d.fx[k], DEq(e.cur.zl[k], "0"))
                         /\ Imp(~d.hasu[k] /\ ~d.fx[k], DEq(e.cur.zu[k], "0"))

\* in the restoration phase the constraint values are recovered from c + n - p
Slop(d, e, k) == IF Has(e, "rin") THEN DDiv(DMul("1e-5", DMax(DMax(DAmaxSeq(e.rin.nc), DAmaxSeq(e.rin.pc)), DMax(DAmaxSeq(e.rin.nd), DAmaxSeq(e.rin.pd)))), d.sg[k]) ELSE "0"

CurOK(c, d, e) ==
  << <<"C20.cur_ok", e.cur.ok>>,
     <<"C20.x_fixed", \A k \in 1..c.n : Imp(d.elim[k], DEq(e.cur.x[k], c.xl[k]))>>,
     <<"C20.g", \A k \in 1..c.m : DNear(e.cur.g[k], e.ug[k], "1e-10", DMul("1e-10", DAdd(Slop(d, e, k), DAdd("1", IF d.eq[k] THEN DAbs(c.gl[k]) ELSE "0"))))>>,
     <<"C20.z_where_no_bound", Imp(c.fd, TRUE) /\ (IF c.fd THEN TRUE ELSE ZFixed(c, d, e))>> >>

ScaledOK(c, d, e) ==
  << <<"C20.curs_ok", e.curs.ok>>,
     <<"C22.curs_x", \A k \in 1..c.n : N1(e.curs.x[k], IF d.elim[k] THEN e.cur.x[k] ELSE DMul(d.sx[k], e.cur.x[k]))>>,
     <<"C22.curs_g", \A k \in 1..c.m : DNear(e.curs.g[k], DMul(d.sg[k], e.cur.g[k]), "1e-10", DMul(DMul("1e-10", d.sg[k]), DAdd(Slop(d, e, k), DAdd("1", IF d.eq[k] THEN DAbs(c.gl[k]) ELSE "0"))))>>,
     <<"C22.curs_lam", \A k \in 1..c.m : N1(e.curs.lam[k], DDiv(DMul(d.so, e.cur.lam[k]), d.sg[k]))>>,
     <<"C22.curs_z", \A k \in 1..c.n : IF d.fx[k] THEN TRUE ELSE
            /\ N1(e.curs.zl[k], DDiv(DMul(d.so, e.cur.zl[k]), d.sx[k])) /\ N1(e.curs.zu[k], DDiv(DMul(d.so, e.cur.zu[k]), d.sx[k]))>>,
     <<"C22.curs_z_fixed", \A k \in 1..c.n : IF ~d.elim[k] THEN TRUE ELSE
            N1(DSub(e.curs.zl[k], e.curs.zu[k]), DMul(d.so, DSub(e.cur.zl[k], e.cur.zu[k])))>>,
     <<"C20.curs_z_fixed_sign", \A k \in 1..c.n : IF ~d.elim[k] THEN TRUE ELSE DLe("0", e.curs.zl[k]) /\ DLe("0", e.curs.zu[k])>> >>

\* violations v of point q (unscaled: fo = 1, fx = fg = 1) with internal slack sl/su of the relaxed bounds
Viol(c, d, e, v, q, fo, fx, fg, tag) ==
  LET one(k) == IF fx = <<>> THEN "1" ELSE fx[k]
      gsc(k) == IF fg = <<>> THEN "1" ELSE fg[k]
      lowv(k) == IF d.fx[k] /\ d.tr = "c" THEN Pos(DSub(c.xl[k], e.cur.x[k])) ELSE IF d.hasl[k] THEN Pos(DSub(d.lo[k], e.cur.x[k])) ELSE "0"
      upv(k) == IF d.fx[k] /\ d.tr = "c" THEN Pos(DSub(e.cur.x[k], c.xu[k])) ELSE IF d.hasu[k] THEN Pos(DSub(e.cur.x[k], d.up[k])) ELSE "0"
      bsc(k) == IF d.fx[k] /\ d.tr = "c" THEN "1" ELSE one(k)
      xs(k) == DMul(DMul("1e-9", one(k)), DAdd("1", DAbs(e.cur.x[k])))
      lam(k) == q.lam[k]
      lo(k) == IF HasLo(c.gl[k]) THEN DSub(c.gl[k], e.ug[k]) ELSE "0"     \* gl - g
      up(k) == IF HasUp(c.gu[k]) THEN DSub(e.ug[k], c.gu[k]) ELSE "0"     \* g - gu
      gs(k) == DMul(gsc(k), DAdd(DAdd("1", Slop(d, e, k)), DAdd(DAbs(e.ug[k]), DAdd(DAbs(lo(k)), DAbs(up(k))))))
  IN << <<"C20.vio_ok" \o tag, v.ok>>,
        <<"C20.x_L_violation" \o tag, \A k \in 1..c.n : DNear(v.xl[k], DMul(bsc(k), lowv(k)), "1e-9", xs(k))>>,
        <<"C20.x_U_violation" \o tag, \A k \in 1..c.n : DNear(v.xu[k], DMul(bsc(k), upv(k)), "1e-9", xs(k))>>,
        <<"C20.compl_x_L" \o tag, \A k \in 1..c.n : IF d.fx[k] THEN TRUE ELSE IF ~d.hasl[k] THEN DEq(v.cl[k], "0") ELSE
             DNear(v.cl[k], DMul(DMul(one(k), DSub(e.cur.x[k], d.rlo[k])), q.zl[k]), "1e-9", DMul(xs(k), DAdd("1", DAbs(q.zl[k]))))>>,
        <<"C20.compl_x_U" \o tag, \A k \in 1..c.n : IF d.fx[k] THEN TRUE ELSE IF ~d.hasu[k] THEN DEq(v.cu[k], "0") ELSE
             DNear(v.cu[k], DMul(DMul(one(k), DSub(d.rup[k], e.cur.x[k])), q.zu[k]), "1e-9", DMul(xs(k), DAdd("1", DAbs(q.zu[k]))))>>,
        <<"C20.grad_lag" \o tag, IF c.fd THEN TRUE ELSE \A k \in 1..c.n : IF d.elim[k] THEN DEq(v.gl[k], "0") ELSE
             DNear(v.gl[k], DDiv(DMul(fo, GradLag(c, e, e.cur, k)), one(k)), "1e-9", DDiv(DMul(DAbs(fo), DMul("1e-9", Mag(c, e, e.cur, k))), one(k)))>>,
        <<"C20.constr_violation" \o tag, \A k \in 1..c.m : DNear(v.cv[k], DMul(gsc(k), IF d.eq[k] THEN DAbs(lo(k)) ELSE DMax("0", DMax(lo(k), up(k)))), "1e-9", DMul("1e-9", gs(k)))>>,
        <<"C20.compl_g" \o tag, \A k \in 1..c.m :
             DNear(v.cg[k], IF d.eq[k] THEN DMul(DMul(gsc(k), lo(k)), lam(k))
                            ELSE DNeg(DMul(gsc(k), DAdd(DMul(lo(k), Neg(lam(k))), DMul(up(k), Pos(lam(k)))))), "1e-9", DMul(DMul("1e-9", gs(k)), DAdd("1", DAbs(lam(k)))))>> >>

----------------------------------------------------------------------------
(* C18 / C22: the internal problem at the internal iterate                   *)
Pick(v, S) == [p \in 1..Len(S) |-> v[S[p]]]
\* bounds: may be recomputed from iterates of size big
Big(m, I) == DMax(m.big, DMax(DAmaxSeq(I.x), DAmaxSeq(I.s)))
BndNear(a, b, big) == Len(a) = Len(b) /\ \A p \in 1..Len(b) : DNear(a[p], b[p], "1e-9", DAdd("1e-9", DMul("1e-14", big)))
SeqNear(a, b, sc) == Len(a) = Len(b) /\ \A p \in 1..Len(b) : DNear(a[p], b[p], "1e-9", DMul("1e-9", DAdd("1", DAbs(sc[p]))))
InternalOK(c, m, d, e) ==
  LET P == IF c.meth = "none" /\ DEq(d.so, "1") THEN "C18." ELSE "C22."
      I == e.in
      sxv == Pick(d.sx, d.xv)
      CC == [p \in 1..Len(d.ce) |-> DMul(d.sg[d.ce[p]], DSub(e.ug[d.ce[p]], c.gl[d.ce[p]]))]
            \o [p \in 1..Len(d.cf) |-> DSub(e.cur.x[d.cf[p]], c.xl[d.cf[p]])]
      CS == [p \in 1..Len(d.ce) |-> DMul(d.sg[d.ce[p]], DAdd(DAbs(e.ug[d.ce[p]]), DAbs(c.gl[d.ce[p]])))]
            \o [p \in 1..Len(d.cf) |-> DAdd(DAbs(e.cur.x[d.cf[p]]), DAbs(c.xl[d.cf[p]]))]
      YC == [p \in 1..Len(d.ce) |-> DDiv(DMul(d.so, e.cur.lam[d.ce[p]]), d.sg[d.ce[p]])]
      YF == [p \in 1..Len(d.cf) |-> DMul(d.so, DSub(e.cur.zu[d.cf[p]], e.cur.zl[d.cf[p]]))]
      YD == [p \in 1..Len(d.di) |-> DDiv(DMul(d.so, e.cur.lam[d.di[p]]), d.sg[d.di[p]])]
      bnd(S, b, sc) == [p \in 1..Len(S) |-> DMul(sc[S[p]], b[S[p]])]
  IN << <<P \o "x", SeqNear(I.x, [p \in 1..Len(d.xv) |-> DMul(sxv[p], e.cur.x[d.xv[p]])], I.x)>>,
        <<P \o "f", NS(I.f, DMul(d.so, e.uf), "0")>>,
        <<P \o "grad_f", IF c.fdg THEN TRUE ELSE SeqNear(I.df, [p \in 1..Len(d.xv) |-> DDiv(DMul(d.so, e.udf[d.xv[p]]), sxv[p])], I.df)>>,
        <<P \o "c", SeqNear(I.c, CC, CS)>>,
        <<P \o "d", SeqNear(I.d, [p \in 1..Len(d.di) |-> DMul(d.sg[d.di[p]], e.ug[d.di[p]])], I.d)>>,
        <<P \o "y_c", SeqNear(I.yc, YC \o YF, I.yc)>>,
        <<P \o "y_d", SeqNear(I.yd, YD, I.yd)>>,
        <<P \o "z_L", SeqNear(I.zl, [p \in 1..Len(d.lb) |-> DDiv(DMul(d.so, e.cur.zl[d.lb[p]]), d.sx[d.lb[p]])], I.zl)>>,
        <<P \o "z_U", SeqNear(I.zu, [p \in 1..Len(d.ub) |-> DDiv(DMul(d.so, e.cur.zu[d.ub[p]]), d.sx[d.ub[p]])], I.zu)>>,
        <<P \o "x_L", BndNear(I.bxl, bnd(d.lb, d.rlo, d.sx), Big(m, I))>>,
        <<P \o "x_U", BndNear(I.bxu, bnd(d.ub, d.rup, d.sx), Big(m, I))>>,
        <<P \o "d_L", BndNear(I.bdl, bnd(d.dl, d.rgl, d.sg), Big(m, I))>>,
        <<P \o "d_U", BndNear(I.bdu, bnd(d.du, d.rgu, d.sg), Big(m, I))>> >>

----------------------------------------------------------------------------
(* C06: interior, positive multipliers, neighbourhood of the central path    *)
AllPos(v) == \A p \in 1..Len(v) : DLt("0", v[p])
KSig(c, z, sl, b, mu) == \A p \in 1..Len(z) :
  LET pr == DMul(z[p], sl[p]) tol == DMul(DMul("1e-14", z[p]), DAdd("1", DAbs(b[p]))) IN   \* slacks are rounded (and corrected) in the size of the bound
  /\ DLe(pr, DAdd(tol, DMul(DMul(c.ksig, mu), "1.000001")))
  /\ DLe(DMul(DDiv(mu, c.ksig), "0.999999"), DAdd(pr, tol))
InteriorOK(c, m, e) ==
  LET I == e.in IN
  << <<"C06.slack_positive", AllPos(I.sxl) /\ AllPos(I.sxu) /\ AllPos(I.ssl) /\ AllPos(I.ssu)>>,
     <<"C06.multiplier_positive", AllPos(I.zl) /\ AllPos(I.zu) /\ AllPos(I.vl) /\ AllPos(I.vu)>>,
     <<"C06.central_path", IF e.it > 0 /\ ~I.free /\ DLe("1", c.ksig) /\ (m.x # I.x)
                           THEN KSig(c, I.zl, I.sxl, I.bxl, I.mu) /\ KSig(c, I.zu, I.sxu, I.bxu, I.mu) /\ KSig(c, I.vl, I.ssl, I.bdl, I.mu) /\ KSig(c, I.vu, I.ssu, I.bdu, I.mu) ELSE TRUE>>,
     <<"C06.slack_x", /\ SeqNear(I.sxl, [p \in 1..Len(m.d.lb) |-> DSub(I.x[IndexIn(m.d.xv, m.d.lb[p])], I.bxl[p])], I.bxl)
                      /\ SeqNear(I.sxu, [p \in 1..Len(m.d.ub) |-> DSub(I.bxu[p], I.x[IndexIn(m.d.xv, m.d.ub[p])])], I.bxu)>>,
     <<"C06.slack_s", /\ SeqNear(I.ssl, [p \in 1..Len(m.d.dl) |-> DSub(I.s[IndexIn(m.d.di, m.d.dl[p])], I.bdl[p])], I.bdl)
                      /\ SeqNear(I.ssu, [p \in 1..Len(m.d.du) |-> DSub(I.bdu[p], I.s[IndexIn(m.d.di, m.d.du[p])])], I.bdu)>> >>

\* how far bounds may be moved by slack_move (in the scaled problem)
\* (they are recomputed as x -/+ slack, hence rounded in the size of the iterates)
Moved(d, b, k, m) == DDiv(DAdd(DMul(DMul("2e-12", DOfInt(m.it + 6)), DAdd("1", DAbs(DMul(d.sx[k], b[k])))), DMul("1e-14", m.big)), d.sx[k])
\* a point of evaluation (after initialization)
PointOK(c, d, m, x) ==
  << <<"C06.evaluated_inside", \A k \in 1..c.n :
          IF d.elim[k] THEN DEq(x[k], c.xl[k])
          ELSE LET tl == Moved(d, d.lo, k, m) tu == Moved(d, d.up, k, m) IN
               Imp(d.hasl[k], DLt(DSub(d.rlo[k], tl), x[k])) /\ Imp(d.hasu[k], DLt(x[k], DAdd(d.rup[k], tu)))>> >>

----------------------------------------------------------------------------
(* C05: optimality errors and the decision of the convergence check          *)
Sum4(a, b, e, f) == DAdd(DAdd(SumAbs(a), SumAbs(b)), DAdd(SumAbs(e), SumAbs(f)))
Sc(I) == LET k == Len(I.zl) + Len(I.zu) + Len(I.vl) + Len(I.vu) IN
         IF k = 0 THEN "1" ELSE DDiv(DMax("100", DDiv(Sum4(I.zl, I.zu, I.vl, I.vu), DOfInt(k))), "100")
Sd(I) == LET k == Len(I.zl) + Len(I.zu) + Len(I.vl) + Len(I.vu) + Len(I.yc) + Len(I.yd) IN
         IF k = 0 THEN "1" ELSE DDiv(DMax("100", DDiv(DAdd(DAdd(SumAbs(I.yc), SumAbs(I.yd)), Sum4(I.zl, I.zu, I.vl, I.vu)), DOfInt(k))), "100")
\* gradient of the Lagrangian with respect to the slack variables
GradS(d, I) == [p \in 1..Len(d.di) |->
     LET k == d.di[p]
         l == {q \in 1..Len(d.dl) : d.dl[q] = k} u == {q \in 1..Len(d.du) : d.du[q] = k}
         vl == IF l = {} THEN "0" ELSE I.vl[CHOOSE q \in l : TRUE]
         vu == IF u = {} THEN "0" ELSE I.vu[CHOOSE q \in u : TRUE]
     IN DSub(DSub(vu, vl), I.yd[p])]
ComplMax(I, mt) == LET g(z, sl) == DAmaxSeq([p \in 1..Len(z) |-> DSub(DMul(z[p], sl[p]), mt)]) IN
     DMax(DMax(g(I.zl, I.sxl), g(I.zu, I.sxu)), DMax(g(I.vl, I.ssl), g(I.vu, I.ssu)))
DualInf(c, d, e) == DMax(DAmaxSeq(Pick(e.vios.gl, d.xv)), DAmaxSeq(GradS(d, e.in)))
UDualInf(c, d, e) == LET gs == GradS(d, e.in) IN
     DMax(DAmaxSeq(Pick(e.vio.gl, d.xv)), DAmaxSeq([p \in 1..Len(d.di) |-> DDiv(DMul(gs[p], d.sg[d.di[p]]), d.so)]))
\* bounds on the constraints as they enter the violation: relaxed
NlpViol(c, d, e, sc) ==
     LET f(k) == IF sc THEN d.sg[k] ELSE "1" IN
     DMax(DAmaxSeq([p \in 1..Len(d.ce) |-> DMul(f(d.ce[p]), DSub(e.ug[d.ce[p]], c.gl[d.ce[p]]))]),
     DMax(DAmaxSeq([p \in 1..Len(d.cf) |-> DSub(e.cur.x[d.cf[p]], c.xl[d.cf[p]])]),
          DAmaxSeq([p \in 1..Len(d.di) |-> LET k == d.di[p] IN DMul(f(k), DMax(DMax("0", IF HasLo(c.gl[k]) THEN DSub(d.rgl[k], e.ug[k]) ELSE "0"),
                                                                     IF HasUp(c.gu[k]) THEN DSub(e.ug[k], d.rgu[k]) ELSE "0"))])))
NearE(a, b) == DNear(a, b, "1e-6", "1e-11")
ScaleG(c, e) == DAmaxSeq(e.ug)
\* infeasibility and barrier objective that the line search works with (linear damping for one-sided bounds)
SumLn(v) == DSumSeq([p \in 1..Len(v) |-> DLog(v[p])])
AbsLn(v) == DSumSeq([p \in 1..Len(v) |-> DAbs(DLog(v[p]))])
One(a, b, sl) == DSumSeq([p \in 1..Len(a) |-> IF \E q \in 1..Len(b) : b[q] = a[p] THEN "0" ELSE sl[p]])
MeritOK(c, m, e) ==
  LET d == m.d I == e.in
      ln == DAdd(DAdd(SumLn(I.sxl), SumLn(I.sxu)), DAdd(SumLn(I.ssl), SumLn(I.ssu)))
      al == DAdd(DAdd(AbsLn(I.sxl), AbsLn(I.sxu)), DAdd(AbsLn(I.ssl), AbsLn(I.ssu)))
      dm == DAdd(DAdd(One(d.lb, d.ub, I.sxl), One(d.ub, d.lb, I.sxu)), DAdd(One(d.dl, d.du, I.ssl), One(d.du, d.dl, I.ssu)))
      phi == DAdd(DSub(I.f, DMul(I.mu, ln)), DMul(DMul(c.kd, I.mu), dm))
      th == DAdd(SumAbs(I.c), SumAbs([p \in 1..Len(I.s) |-> DSub(I.d[p], I.s[p])]))
  IN IF ~(AllPos(I.sxl) /\ AllPos(I.sxu) /\ AllPos(I.ssl) /\ AllPos(I.ssu)) THEN <<>> ELSE
     << <<"C07.infeasibility", IF c.norm1 THEN DNear(I.th, th, "1e-9", "1e-11") ELSE TRUE>>,
        <<"C07.barrier_objective", DNear(I.phi, phi, "1e-9", DMul("1e-9", DAdd(DAbs(I.f), DMul(I.mu, DAdd(al, dm)))))>> >>
ErrorsOK(c, m, e) ==
  LET d == m.d I == e.in
      du == DualInf(c, d, e) pr == NlpViol(c, d, e, TRUE) co == ComplMax(I, c.mut)
      e0 == DMax(DDiv(du, Sd(I)), DMax(pr, DDiv(co, Sc(I))))
      pri == DMax(DAmaxSeq(I.c), DAmaxSeq([p \in 1..Len(I.s) |-> DSub(I.d[p], I.s[p])]))
      ga == DMul("1e-11", DAdd("1", DMul(DAdd("1", DAmaxSeq(d.sg)), DAdd(ScaleG(c, e), DAmaxSeq(Pick(c.gl, d.ce))))))
      da == DMul("1e-11", DAdd("1", DAdd(SumAbs(I.df), SumAbs(I.yc))))
  IN << <<"C05.error_dual", IF c.fd THEN TRUE ELSE DNear(I.du, du, "1e-6", da)>>,
        <<"C05.error_compl", IF DEq(c.mut, "0") THEN NearE(I.co, co) ELSE TRUE>>,
        <<"C05.error_total", IF c.fd THEN TRUE ELSE DNear(I.e0, e0, "1e-6", DAdd(ga, da))>>,
        <<"C05.error_udual", IF c.fd THEN TRUE ELSE DNear(I.udu, UDualInf(c, d, e), "1e-6", DDiv(DMul(da, DAdd("1", DMul(DAmaxSeq(d.sx), DAmaxSeq(<<"1">> \o d.sg)))), DAbs(d.so)))>>,
        <<"C05.error_uprimal", DNear(I.upr, NlpViol(c, d, e, FALSE), "1e-6", ga)>>,
        <<"C05.error_ucompl", IF DEq(c.mut, "0") THEN DNear(I.uco, DDiv(co, DAbs(d.so)), "1e-6", "1e-11") ELSE TRUE>>,
        <<"C04.inf_pr", DEq(e.pr, I.pr) /\ DNear(I.pr, pri, "1e-9", "1e-11")>>,
        <<"C04.inf_du", DEq(e.du, I.du)>>,
        <<"C04.mu", DEq(e.mu, I.mu)>> >>

\* unscaled complementarity with respect to mu_target
UCo(c, m, e) == IF DEq(c.mut, "0") THEN e.in.uco ELSE DDiv(ComplMax(e.in, c.mut), DAbs(m.d.so))
Met(c, m, e, tol, dt, pt, ct) == DLe(e.in.e0, tol) /\ DLe(e.in.udu, dt) /\ DLe(e.in.upr, pt) /\ DLe(UCo(c, m, e), ct)
\* decision at a regular iterate: <<final status or -1, acceptable counter, last objective, current objective, its iteration>>
Decide(c, m, e) ==
  IF ~e.ret THEN <<7, m.acnt, m.lastf, m.currf, m.oiter>>
  ELSE IF Met(c, m, e, e.in.tol, c.dtol, c.ptol, c.ctol) THEN <<0, m.acnt, m.lastf, m.currf, m.oiter>>
  ELSE IF Len(e.in.x) = 0 THEN <<IF DLe(e.in.upr, c.ptol) THEN 0 ELSE 6, m.acnt, m.lastf, m.currf, m.oiter>>
  ELSE LET upd == c.aiter > 0 /\ m.oiter # e.it
           lf == IF upd THEN m.currf ELSE m.lastf
           cf == IF upd THEN e.in.f ELSE m.currf
           oi == IF upd THEN e.it ELSE m.oiter
           acc == Met(c, m, e, c.atol, c.adtol, c.aptol, c.actol) /\ DLe(DDiv(DAbs(DSub(cf, lf)), DMax("1", DAbs(cf))), c.aobj)
           cnt == IF c.aiter > 0 /\ acc THEN m.acnt + 1 ELSE 0
       IN IF c.aiter > 0 /\ cnt >= c.aiter THEN <<5, cnt, lf, cf, oi>>
          ELSE <<IF DLt(c.div, DAmaxSeq(e.in.x)) THEN 9 ELSE IF e.it >= c.maxit THEN 1 ELSE -1, cnt, lf, cf, oi>>

\* statuses that may end a run whose last regular iterate was to be continued
Continued(c, m, st) == IF m.mode = 1 THEN st \notin {9} ELSE st \notin {0, 1, 7, 9}

FinalOK(c, m, e) ==
  LET d == m.d
      dec == IF m.dec = <<>> THEN -1 ELSE m.dec[1]
      same == m.mode = 0 /\ ~m.last.none /\ e.st \in {0, 1, 4, 5, 7, 9} /\ e.x = m.last.x
      L == m.last
      \* with honor_original_bounds the point may have been moved, the rest is not recomputed
  IN << <<"C05.decision", IF m.mode = 1 \/ m.dec = <<>> THEN TRUE ELSE IF dec >= 0 THEN e.st = dec ELSE Continued(c, m, e.st)>>,
        \* otherwise the acceptable level is only reported by a line search that has found an acceptable point before
        <<"C05.acceptable_only_after_acceptable", IF e.st # 5 \/ c.aiter = 0 \/ dec = 5 THEN TRUE ELSE m.anyacc /\ (e.nls # 0 \/ m.mode = 1)>>,
        <<"C05.success_only_if_certified", Imp(e.st = 0 /\ ~c.honor, same) /\ Imp(e.st = 0, m.mode = 0)>>,
        <<"C20.final_is_last", IF same THEN (c.zskip \/ (e.zl = L.zl /\ e.zu = L.zu)) /\ e.lam = L.lam /\ e.g = L.g /\ NS(e.obj, L.uf, "0") ELSE TRUE>>,
        <<"C22.final_obj", Imp(e.st \in 0..9 /\ ~c.honor, NS(e.obj, e.uf, "0"))>>,
        <<"C22.final_g", Imp(e.st \in 0..9 /\ ~c.honor, \A k \in 1..c.m : DNear(e.g[k], e.ug[k], "1e-9", DMul("1e-9", DAdd("1", IF d.eq[k] THEN DAbs(c.gl[k]) ELSE "0"))))>>,
        <<"C06.final_fixed", Imp(e.st \in 0..11, \A k \in 1..c.n : Imp(d.elim[k], DEq(e.x[k], c.xl[k])))>>,
        <<"C06.final_bounds", Imp(e.st \in 0..11, \A k \in 1..c.n : IF d.elim[k] THEN TRUE ELSE
             IF c.honor THEN Imp(d.hasl[k] /\ ~d.fx[k], DLe(c.xl[k], e.x[k])) /\ Imp(d.hasu[k] /\ ~d.fx[k], DLe(e.x[k], c.xu[k]))
             ELSE /\ Imp(d.hasl[k], DLe(DSub(d.rlo[k], Moved(d, d.lo, k, m)), e.x[k]))
                  /\ Imp(d.hasu[k], DLe(e.x[k], DAdd(d.rup[k], Moved(d, d.up, k, m))))) >>,
        \* certification from the user's own functions
        <<"C05.final_feasible", Imp(e.st = 0, \A k \in 1..c.m :
             /\ Imp(HasLo(c.gl[k]), DLe(DSub(d.rgl[k], e.ug[k]), DAdd(DMul("1.001", c.ptol), DMul("1e-7", DAdd("1", DAbs(e.ug[k]))))))
             /\ Imp(HasUp(c.gu[k]), DLe(DSub(e.ug[k], d.rgu[k]), DAdd(DMul("1.001", c.ptol), DMul("1e-7", DAdd("1", DAbs(e.ug[k])))))))>>,
        <<"C05.final_stationary", IF e.st # 0 \/ c.honor \/ c.fd THEN TRUE ELSE \A p \in 1..Len(d.xv) : LET k == d.xv[p] IN
             DLe(DAbs(GradLag(c, e, e, k)), DAdd(DMin(DMul("1.001", c.dtol), DDiv(DMul(DMul("1.001", m.tol), DMul(m.sd, d.sx[k])), DAbs(d.so))), DMul("1e-9", Mag(c, e, e, k))))>>,
        <<"C05.final_complementary", IF e.st # 0 \/ c.honor \/ DLt("0", c.mut) THEN TRUE ELSE \A k \in 1..c.n : IF d.fx[k] THEN TRUE ELSE
             /\ Imp(d.hasl[k], DLe(DAbs(DMul(e.zl[k], DSub(e.x[k], d.rlo[k]))), DMul("1.01", DAdd("1e-9", c.ctol))))
             /\ Imp(d.hasu[k], DLe(DAbs(DMul(e.zu[k], DSub(d.rup[k], e.x[k]))), DMul("1.01", DAdd("1e-9", c.ctol))))>> >>

----------------------------------------------------------------------------
(* C21: the first iterate, from the starting data the user supplied          *)
\* moved inside its bounds: bound_push relative to the size of the bound, at most bound_frac of the distance of two bounds
Push(v, hl, lo, hu, up, bp, bf) ==
  LET w == LET a == IF hl THEN DMax(v, lo) ELSE v IN IF hu THEN DMin(a, up) ELSE a
      pl == LET a == DMul(bp, DMax("1", DAbs(lo))) IN IF hu THEN DMin(a, DMul(bf, DSub(up, lo))) ELSE a
      pu == LET a == DMul(bp, DMax("1", DAbs(up))) IN IF hl THEN DMin(a, DMul(bf, DSub(up, lo))) ELSE a
      x1 == IF hl THEN DMax(w, DAdd(lo, pl)) ELSE w
  IN IF hu THEN DMin(x1, DSub(up, pu)) ELSE x1
PushAll(v, lk, lb, uk, ub, keys, bp, bf) == [p \in 1..Len(keys) |-> LET k == keys[p] hl == \E q \in 1..Len(lk) : lk[q] = k hu == \E q \in 1..Len(uk) : uk[q] = k IN
     Push(v[p], hl, IF hl THEN lb[IndexIn(lk, k)] ELSE "0", hu, IF hu THEN ub[IndexIn(uk, k)] ELSE "0", bp, bf)]
Clip(v, b) == IF DLt("0", b) THEN [p \in 1..Len(v) |-> DMax(DNeg(b), DMin(b, v[p]))] ELSE v
Cap(v, b) == IF DLt("0", b) THEN [p \in 1..Len(v) |-> DMin(b, v[p])] ELSE v
AtLeast(v, b) == [p \in 1..Len(v) |-> DMax(v[p], b)]
Const(v, b) == \A p \in 1..Len(v) : DEq(v[p], b)
StartOK(c, m, e) ==
  LET d == m.d I == e.in u == m.st
      X == [p \in 1..Len(d.xv) |-> DMul(d.sx[d.xv[p]], u.x0[d.xv[p]])]
      PX(bp, bf) == PushAll(X, d.lb, I.bxl, d.ub, I.bxu, d.xv, bp, bf)
      PS(v, bp, bf) == PushAll(v, d.dl, I.bdl, d.du, I.bdu, d.di, bp, bf)
      gd == [p \in 1..Len(d.di) |-> DMul(d.sg[d.di[p]], u.ug[d.di[p]])]
      Y == Clip([p \in 1..Len(d.ce) |-> DDiv(DMul(d.so, u.lam0[d.ce[p]]), d.sg[d.ce[p]])] \o [p \in 1..Len(d.cf) |-> DMul(d.so, DSub(u.zu0[d.cf[p]], u.zl0[d.cf[p]]))], c.wmax)
      YD == Clip([p \in 1..Len(d.di) |-> DDiv(DMul(d.so, u.lam0[d.di[p]]), d.sg[d.di[p]])], c.wmax)
      Z(S, z) == AtLeast(Cap([p \in 1..Len(S) |-> DDiv(DMul(d.so, z[S[p]]), d.sx[S[p]])], c.wmax), c.wmp)
      V(S, sg) == AtLeast([p \in 1..Len(S) |-> LET y == YD[IndexIn(d.di, S[p])] IN IF sg THEN y ELSE DNeg(y)], c.wmp)
      MuB(z, sl) == \A p \in 1..Len(z) : DNear(z[p], DDiv(c.mui, sl[p]), "1e-9", "0")
      ymax == DMax(DAmaxSeq(I.yc), DAmaxSeq(I.yd))
      free == [p \in 1..Len(d.xv) |-> "0"]
      \* least squares: the residual of the dual equations is orthogonal to the constraint gradients
      rx == [k \in 1..c.n |-> DDiv(DMul(d.so, GradLag(c, e, e.cur, k)), d.sx[k])]
      mg == [k \in 1..c.n |-> DAbs(DDiv(DMul(d.so, Mag(c, e, e.cur, k)), d.sx[k]))]
      Jr(r, w) == DSumSeq([p \in 1..Len(d.xv) |-> DMul(DDiv(DMul(d.sg[r], e.uj[(r - 1) * c.n + d.xv[p]]), d.sx[d.xv[p]]), w[d.xv[p]])])
      Ja(r, w) == DSumSeq([p \in 1..Len(d.xv) |-> DAbs(DMul(DDiv(DMul(d.sg[r], e.uj[(r - 1) * c.n + d.xv[p]]), d.sx[d.xv[p]]), w[d.xv[p]]))])
      gs == GradS(d, I)
      LS == /\ \A p \in 1..Len(d.ce) : DNear(Jr(d.ce[p], rx), "0", "0", DMul("1e-6", DAdd("1", Ja(d.ce[p], mg))))
            /\ \A p \in 1..Len(d.di) : DNear(DSub(Jr(d.di[p], rx), gs[p]), "0", "0", DMul("1e-6", DAdd("1", Ja(d.di[p], mg))))
  IN IF Has(u, "none") \/ c.mehrotra THEN <<>>
     ELSE IF c.warm THEN
       IF c.wall \/ DLt("0", c.wtmu) \/ ~u.iz \/ u.zl0 = <<>> THEN <<>> ELSE
       << <<"C21.warm_x", SeqNear(I.x, PX(c.wbp, c.wbf), I.x)>>,
          <<"C21.warm_s", IF ~u.ufin \/ c.lsp THEN TRUE ELSE SeqNear(I.s, PS(gd, c.wsp, c.wsf), I.s)>>,
          <<"C21.warm_y", SeqNear(I.yc, Y, I.yc) /\ SeqNear(I.yd, YD, I.yd)>>,
          <<"C21.warm_z", SeqNear(I.zl, Z(d.lb, u.zl0), I.zl) /\ SeqNear(I.zu, Z(d.ub, u.zu0), I.zu)>>,
          <<"C21.warm_v", SeqNear(I.vl, V(d.dl, FALSE), I.vl) /\ SeqNear(I.vu, V(d.du, TRUE), I.vu)>> >>
     ELSE
       << <<"C21.start_x", IF c.lsp THEN TRUE ELSE SeqNear(I.x, PX(c.bp, c.bf), I.x)>>,
          <<"C21.start_s", SeqNear(I.s, PS(I.d, c.sbp, c.sbf), I.s)>>,
          <<"C21.start_z", IF c.lsd THEN TRUE ELSE IF c.bmi = "constant" THEN Const(I.zl, c.bmv) /\ Const(I.zu, c.bmv) /\ Const(I.vl, c.bmv) /\ Const(I.vu, c.bmv)
                           ELSE MuB(I.zl, I.sxl) /\ MuB(I.zu, I.sxu) /\ MuB(I.vl, I.ssl) /\ MuB(I.vu, I.ssu)>>,
          <<"C21.start_y", IF c.lsd THEN TRUE ELSE DLe(ymax, c.cmax) /\ (IF DEq(ymax, "0") \/ c.fd \/ d.cf # <<>> THEN TRUE ELSE LS)>> >>

----------------------------------------------------------------------------
RestoOK(c, d, e) ==
  << <<"C04.resto_mu", DEq(e.mu, e.rin.mu)>>,
     <<"C22.resto_x", SeqNear(e.rin.x, [p \in 1..Len(d.xv) |-> DMul(d.sx[d.xv[p]], e.cur.x[d.xv[p]])], e.rin.x)>>,
     <<"C06.resto_positive", (AllPos(e.rin.nc) /\ AllPos(e.rin.pc) /\ AllPos(e.rin.nd) /\ AllPos(e.rin.pd) /\ AllPos(e.rin.zl) /\ AllPos(e.rin.zu) /\ AllPos(e.rin.vl) /\ AllPos(e.rin.vu))>>,
     <<"C04.resto_inf_pr", LET pr == DMax(DAmaxSeq([p \in 1..Len(d.ce) |-> DMul(d.sg[d.ce[p]], DSub(e.ug[d.ce[p]], c.gl[d.ce[p]]))]),
                                    DMax(DAmaxSeq([p \in 1..Len(d.cf) |-> DSub(e.cur.x[d.cf[p]], c.xl[d.cf[p]])]),
                                         DAmaxSeq([p \in 1..Len(d.di) |-> DSub(DMul(d.sg[d.di[p]], e.ug[d.di[p]]), e.rin.s[p])])))
                           IN DNear(e.pr, pr, "1e-9", DMul("1e-9", DAdd("1", ScaleG(c, e))))>> >>

\* numbers of a run that has overflowed are not judged
Overflow(e) == \E v \in (IF Has(e, "rin") THEN {e.rin.nc, e.rin.pc, e.rin.nd, e.rin.pd, e.rin.x, e.rin.s} ELSE {}) \cup {e.cur.x, e.ug, <<e.uf>>} :
                 \E p \in 1..Len(v) : ~DLt(DAbs(v[p]), "1e100")
Check(c, m, e) ==
  LET d == m.d IN
  IF e.e = "pt" THEN (IF m.it >= 0 THEN PointOK(c, d, m, e.x) ELSE <<>>)
  ELSE IF e.e = "iter" THEN
    (IF Overflow(e) THEN <<>> ELSE IF ~d.known THEN CurOK(c, d, e)
     ELSE CurOK(c, d, e) \o ScaledOK(c, d, e) \o Viol(c, d, e, e.vio, e.cur, "1", <<>>, <<>>, "") \o Viol(c, d, e, e.vios, e.curs, d.so, d.sx, d.sg, "_scaled")
          \o << <<"C04.objective", NS(e.obj, e.uf, "0")>>,
                <<"C04.steps", DLe(e.ap, "1") /\ DLe("0", e.ap) /\ DLe("0", e.ad) /\ DLe(e.ad, "1")>>,
                <<"C04.others", DLe("0", e.dn) /\ DLe("0", e.reg) /\ e.ls >= 0 /\ DLe("0", e.mu)>> >>
          \o (IF Has(e, "in") THEN InternalOK(c, m, d, e) \o InteriorOK(c, m, e) \o ErrorsOK(c, m, e) \o MeritOK(c, m, e) \o (IF e.it = 0 /\ m.it < 0 THEN StartOK(c, m, e) ELSE <<>>)
              ELSE IF Has(e, "rin") THEN RestoOK(c, d, e) ELSE <<>>))
    \o << <<"C05.no_iterate_after_decision", IF m.dec = <<>> \/ m.mode = 1 THEN TRUE ELSE m.dec[1] < 0>> >>
  ELSE IF e.e = "final" THEN FinalOK(c, m, e)
  ELSE IF e.e = "end" THEN << <<"C20.outside_not_available", Imp(Has(e, "after"), ~e.after)>> >>
  ELSE <<>>

Step(c, m, e) ==
  IF e.e = "start" THEN [m EXCEPT !.st = e, !.d = IF c.meth = "gradient-based" /\ Has(e, "udf") THEN GradScale(c, @, e) ELSE @]
  ELSE IF e.e = "iter" THEN
    [m EXCEPT !.it = e.it, !.mode = e.mode,
              !.dec = IF Has(e, "in") THEN Decide(c, m, e) ELSE <<>>,
              !.acnt = IF Has(e, "in") THEN Decide(c, m, e)[2] ELSE @,
              !.anyacc = IF Has(e, "in") THEN @ \/ Decide(c, m, e)[2] > 0 ELSE @,
              !.lastf = IF Has(e, "in") THEN Decide(c, m, e)[3] ELSE @,
              !.currf = IF Has(e, "in") THEN Decide(c, m, e)[4] ELSE @,
              !.oiter = IF Has(e, "in") THEN Decide(c, m, e)[5] ELSE @,
              !.sd = IF Has(e, "in") THEN Sd(e.in) ELSE @, !.tol = IF Has(e, "in") THEN e.in.tol ELSE @,
              !.big = IF Has(e, "in") THEN Big(m, e.in) ELSE IF Has(e, "rin") THEN DMax(@, DMax(DAmaxSeq(e.rin.x), DAmaxSeq(e.rin.s))) ELSE @,
              !.x = IF Has(e, "in") THEN e.in.x ELSE <<>>,
              !.last = [none |-> FALSE, x |-> e.cur.x, zl |-> e.cur.zl, zu |-> e.cur.zu, lam |-> e.cur.lam, g |-> e.cur.g, uf |-> e.uf]]
  ELSE m

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = [tol |-> "0", big |-> "0", st |-> [none |-> TRUE]] @@ Start(Traces[t].cfg)
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
