------------------------------- MODULE Wrap --------------------------------
(* Reduced and bound-free reformulations (property C25): TNLPReducer drops   *)
(* constraints and variable bounds and fixes variables to their starting     *)
(* values; NLPBoundsRemover turns the remaining variable bounds into         *)
(* inequality constraints, after the regular ones.  The wrapped problem must *)
(* be the one written down by hand (Red, NoBounds below), converted as       *)
(* Adapter.tla says, and results must come back in the user's numbering.     *)
EXTENDS TraceKit
VARIABLES t, i, s
A == INSTANCE Adapter

Huge == "1.7976931348623157e+308"
Keep(c) == SelectSeq([k \in 1..c.m |-> k], LAMBDA k : \A q \in 1..Len(c.dropg) : c.dropg[q] # k)
InSeq(k, S) == \E q \in 1..Len(S) : S[q] = k
Red(c) == LET K == Keep(c) IN
  [c EXCEPT !.m = Len(K), !.gl = [r \in 1..Len(K) |-> c.gl[K[r]]], !.gu = [r \in 1..Len(K) |-> c.gu[K[r]]], !.lam0 = [r \in 1..Len(K) |-> c.lam0[K[r]]],
            !.sg = IF c.hassg THEN [r \in 1..Len(K) |-> c.sg[K[r]]] ELSE <<>>,
            !.xl = [k \in 1..c.n |-> IF InSeq(k, c.fix) THEN c.x0[k] ELSE IF InSeq(k, c.dropxl) THEN "-" \o Huge ELSE c.xl[k]],
            !.xu = [k \in 1..c.n |-> IF InSeq(k, c.fix) THEN c.x0[k] ELSE IF InSeq(k, c.dropxu) THEN Huge ELSE c.xu[k]]]
RedE(c, e) == LET K == Keep(c)
                  g == IF Has(e, "ug") THEN [e EXCEPT !.ug = [r \in 1..Len(K) |-> e.ug[K[r]]], !.uj = [q \in 1..(Len(K) * c.n) |-> e.uj[(K[((q - 1) \div c.n) + 1] - 1) * c.n + ((q - 1) % c.n) + 1]]] ELSE e
                  h == IF Has(g, "uhc") THEN [g EXCEPT !.uhc = [r \in 1..Len(K) |-> g.uhc[K[r]]]] ELSE g
              IN IF Has(h, "flam") THEN [h EXCEPT !.flam = [r \in 1..Len(K) |-> h.flam[K[r]]], !.fg = [r \in 1..Len(K) |-> h.fg[K[r]]]] ELSE h
\* what the user gets for the constraints that were dropped
Dropped(c, e) == IF ~Has(e, "flam") THEN <<>>
  ELSE << <<"C25.all_constraints", Len(e.flam) = c.m /\ A!SeqN(e.fg, e.ug)>>,
          <<"C25.dropped_multipliers", \A k \in 1..c.m : IF InSeq(k, c.dropg) THEN DEq(e.flam[k], "0") ELSE TRUE>> >>

\* bounds replaced by constraints: values, multipliers and rows of the regular inequalities come first, then those of the lower and of the upper bounds
Part(v, a, b) == SubSeq(v, a + 1, b)
NoBounds(c, d, e) ==
  LET nd == Len(d.di) nl == Len(d.lb) nu == Len(d.ub) nx == Len(d.xv)
      P1(v) == Part(v, 0, nd)  P2(v) == Part(v, nd, nd + nl)  P3(v) == Part(v, nd + nl, nd + nl + nu)
      sided(k) == (IF InSeq(k, d.dlb) THEN 1 ELSE 0) + (IF InSeq(k, d.dub) THEN 1 ELSE 0)
      LoB == [p \in 1..nl |-> d.lo[d.xv[d.lb[p]]]]
      UpB == [p \in 1..nu |-> d.up[d.xv[d.ub[p]]]]
      Len3(v) == Len(v) = nd + nl + nu
  IN
  CASE e.e = "skip" -> <<>>
    [] e.e = "spaces" ->
        IF d.bad THEN << <<"C25.reject_inconsistent_bounds", e.rej = "inconsistent">> >>
        ELSE IF e.rej # "" THEN << <<"C25.rejected", FALSE>> >>
        ELSE IF \E k \in 1..nd : sided(k) # 1 THEN << <<"C25.reject_two_sided", e.brej = "invalid">> >>
        ELSE << <<"C25.accepted", e.brej = "" /\ e.bok>>,
                <<"C25.dimensions", e.nx = nx /\ e.nc = Len(d.ce) + Len(d.cf) /\ e.nd = nd + nl + nu /\ e.jcr = e.nc /\ e.jdr = e.nd /\ e.jcc = nx /\ e.jdc = nx /\ e.h = nx>>,
                <<"C25.no_bounds", e.pxl = <<>> /\ e.pxu = <<>> /\ e.xl = <<>> /\ e.xu = <<>>>>,
                <<"C25.which_bounds", e.pdl = d.dlb \o [p \in 1..nl |-> nd + p] /\ e.pdu = d.dub \o [p \in 1..nu |-> nd + nl + p]>>,
                <<"C25.bounds", A!SeqN(e.dl, [p \in 1..Len(d.dlb) |-> c.gl[d.di[d.dlb[p]]]] \o LoB) /\ A!SeqN(e.du, [p \in 1..Len(d.dub) |-> c.gu[d.di[d.dub[p]]]] \o UpB)>>,
                <<"C25.factors", IF ~Has(e, "so") THEN TRUE ELSE
                    /\ A!N(e.so, c.so)
                    /\ (IF c.hassx THEN A!SeqN(e.sx, [p \in 1..nx |-> c.sx[d.xv[p]]]) ELSE e.sx = <<"none">>)
                    /\ (IF c.hassg THEN A!SeqN(e.sc, [p \in 1..Len(d.ce) |-> c.sg[d.ce[p]]] \o [p \in 1..Len(d.cf) |-> "1"]) ELSE e.sc = <<"none">>)
                    /\ (IF c.hassg \/ c.hassx
                        THEN A!SeqN(e.sd, [p \in 1..nd |-> IF c.hassg THEN c.sg[d.di[p]] ELSE "1"] \o [p \in 1..nl |-> IF c.hassx THEN c.sx[d.xv[d.lb[p]]] ELSE "1"]
                                             \o [p \in 1..nu |-> IF c.hassx THEN c.sx[d.xv[d.ub[p]]] ELSE "1"])
                        ELSE e.sd = <<"none">>)>> >>
    [] e.e = "start" ->
        LET w(b) == (e.w \div b) % 2 = 1
            need(b, got, want) == IF w(b) THEN A!SeqN(got, want) ELSE \A p \in 1..Len(got) : DEq(got[p], "77") IN
        << <<"C25.start_x", e.ok /\ need(1, e.sx, [p \in 1..nx |-> c.x0[d.xv[p]]])>>,
           <<"C25.start_y_c", need(2, e.yc, [p \in 1..Len(d.ce) |-> c.lam0[d.ce[p]]] \o [p \in 1..Len(d.cf) |-> DSub(c.zu0[d.cf[p]], c.zl0[d.cf[p]])])>>,
           \* a lower bound x >= l as constraint has the multiplier -z_L, an upper bound +z_U
           <<"C25.start_y_d", Len3(e.yd) /\ need(4, e.yd, [p \in 1..nd |-> c.lam0[d.di[p]]] \o [p \in 1..nl |-> DNeg(c.zl0[d.xv[d.lb[p]]])] \o [p \in 1..nu |-> c.zu0[d.xv[d.ub[p]]]])>> >>
    [] e.e = "final" -> IF Len3(e.yd) THEN A!FinalOK(c, d, [e EXCEPT !.yd = P1(e.yd), !.zl = [p \in 1..nl |-> DNeg(P2(e.yd)[p])], !.zu = P3(e.yd)]) ELSE << <<"C25.sizes", FALSE>> >>
    [] e.e = "d" -> IF Len3(e.v)
                    THEN A!EvalOK(c, d, [e EXCEPT !.v = P1(e.v)]) \o << <<"C25.bound_values", A!SeqN(P2(e.v), [p \in 1..nl |-> e.x[d.lb[p]]]) /\ A!SeqN(P3(e.v), [p \in 1..nu |-> e.x[d.ub[p]]])>> >>
                    ELSE << <<"C25.sizes", FALSE>> >>
    [] e.e = "jd" -> IF Len(e.v) = (nd + nl + nu) * nx
                     THEN A!EvalOK(c, d, [e EXCEPT !.v = SubSeq(e.v, 1, nd * nx)])
                          \o << <<"C25.bound_rows", \A r \in 1..(nl + nu) : \A k \in 1..nx :
                                  DEq(e.v[(nd + r - 1) * nx + k], IF k = (IF r <= nl THEN d.lb[r] ELSE d.ub[r - nl]) THEN "1" ELSE "0")>> >>
                     ELSE << <<"C25.sizes", FALSE>> >>
    [] e.e = "h" -> IF Len3(e.yd) THEN A!EvalOK(c, d, [e EXCEPT !.yd = P1(e.yd)]) ELSE << <<"C25.sizes", FALSE>> >>
    [] OTHER -> A!EvalOK(c, d, e)

Check(c, d, e) == (IF e.e = "final" THEN Dropped(c, e) ELSE <<>>)
                  \o (IF c.nb THEN NoBounds(Red(c), d, RedE(c, e)) ELSE A!Check(Red(c), d, RedE(c, e)))

Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = A!Derive(Red(Traces[t].cfg))
Next == /\ i < Len(Traces[t].ev)
        /\ Report(t, i + 1, Check(Traces[t].cfg, s, Traces[t].ev[i + 1]))
        /\ i' = i + 1 /\ UNCHANGED <<t, s>>
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
