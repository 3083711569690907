----------------------------- MODULE PdSystem ------------------------------
(* Step computation (C11): trial sequence of perturbations of the primal-    *)
(* dual system, reaction to every answer of the linear solver, quality       *)
(* requests, iterative refinement.  The environment answers factorizations   *)
(* (success with a solution of a given accuracy, singular, too few / many    *)
(* negative eigenvalues, fatal) and quality requests.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, Doubles
CONSTANTS Opts,      \* set of option records
          NRs,       \* numbers of constraints
          Accs,      \* accuracies (decimal digits gained) of a solution: subset of {0, 4, 16}
          Kinds,     \* kinds of calls
          Whats,     \* what may change between calls
          MaxLen, MaxCalls, Thin, Calm,
          Record     \* keep histories (FALSE: only the state, for the liveness check)
VARIABLES o, nr, mu, sgn,  \* options, constraints, barrier parameter, sign of the Hessian's curvature
          hd,        \* perturbation handler
          valid,     \* the current matrix was solved with the current perturbations
          imp,       \* better quality already requested for this matrix
          pc, cur,   \* control
          info, regu, pert,
          dig,       \* accuracy of the last result (-1: none)
          acc,       \* record of this call: calls, answers, quality answers
          h
vars == <<o, nr, mu, sgn, hd, valid, imp, pc, cur, info, regu, pert, dig, acc, h>>

-----------------------------------------------------------------------------
(* perturbation handler; cx, cc: current Hessian/constraint perturbation, lx: last successful one *)
Z == "0"
HInit(op) == [hess |-> "yet", jac |-> IF op.always THEN "not" ELSE "yet", it |-> 0, test |-> "none", cx |-> Z, cc |-> Z, lx |-> Z]
Cd(op, m) == DMul(op.cd, DPow(m, op.exp))
IsZ(x) == DEq(x, Z)
Inc(n) == IF n >= 3 THEN 3 ELSE n + 1
\* conclusion from the last test, given that it did not end singular: <<handler, info>>
Conclude(d) ==
  CASE d.test = "none" -> <<d, "">>
    [] d.test = "c0x0" ->
         IF d.hess = "yet" /\ d.jac = "yet" THEN <<[d EXCEPT !.hess = "not", !.jac = "not"], "Nhj ">>
         ELSE IF d.hess = "yet" THEN <<[d EXCEPT !.hess = "not"], "Nh ">>
         ELSE IF d.jac = "yet" THEN <<[d EXCEPT !.jac = "not"], "Nj ">> ELSE <<d, "">>
    [] d.test = "c1x0" ->
         LET i1 == IF d.hess = "yet" THEN "Nh " ELSE ""
             d1 == [d EXCEPT !.hess = IF d.hess = "yet" THEN "not" ELSE d.hess]
         IN IF d1.jac # "yet" THEN <<d1, i1>>
            ELSE IF d1.it + 1 >= 3 THEN <<[d1 EXCEPT !.it = Inc(d1.it), !.jac = "deg"], i1 \o "Dj L">>
            ELSE <<[d1 EXCEPT !.it = Inc(d1.it)], i1 \o "L">>
    [] d.test = "c0x1" ->
         LET i1 == IF d.jac = "yet" THEN "Nj " ELSE ""
             d1 == [d EXCEPT !.jac = IF d.jac = "yet" THEN "not" ELSE d.jac]
         IN IF d1.hess # "yet" THEN <<d1, i1>>
            ELSE IF d1.it + 1 >= 3 THEN <<[d1 EXCEPT !.it = Inc(d1.it), !.hess = "deg"], i1 \o "Dh ">>
            ELSE <<[d1 EXCEPT !.it = Inc(d1.it)], i1>>
    [] d.test = "c1x1" ->
         IF d.it + 1 >= 3 THEN <<[d EXCEPT !.it = Inc(d.it), !.hess = "deg", !.jac = "deg"], "Dhj L">>
         ELSE <<[d EXCEPT !.it = Inc(d.it)], "L">>
\* next larger Hessian perturbation: <<ok, handler, info>>
Enlarge(d, op) ==
  LET v == IF IsZ(d.cx) THEN (IF IsZ(d.lx) THEN op.init ELSE DMax(op.min, DMul(d.lx, op.dec)))
           ELSE IF IsZ(d.lx) \/ DLt(DMul("100000", d.lx), d.cx) THEN DMul(op.inc1, d.cx) ELSE DMul(op.inc, d.cx)
  IN IF DLt(op.max, v) THEN <<FALSE, [d EXCEPT !.cx = Z, !.lx = Z], "dx">> ELSE <<TRUE, [d EXCEPT !.cx = v], "">>
\* first trial for a new matrix: <<ok, handler, info>>
Consider(d0, op, m) ==
  LET f == Conclude(d0)  d == f[1]
      d1 == [d EXCEPT !.lx = IF IsZ(d.cx) THEN d.lx ELSE d.cx,
                      !.test = IF d.hess = "yet" \/ d.jac = "yet" THEN (IF op.always THEN "c1x0" ELSE "c0x0") ELSE "none",
                      !.cc = IF d.jac = "deg" \/ op.always THEN Cd(op, m) ELSE Z,
                      !.cx = Z]
      i1 == f[2] \o (IF d.jac = "deg" THEN "l" ELSE "")
  IN IF d1.hess = "deg" THEN LET e == Enlarge(d1, op) IN <<e[1], e[2], i1 \o e[3]>> ELSE <<TRUE, d1, i1>>
Singular(d, op, m) ==
  IF d.hess = "yet" \/ d.jac = "yet" THEN
    CASE d.test = "c0x0" ->
           IF d.jac = "yet" THEN <<TRUE, [d EXCEPT !.cc = Cd(op, m), !.test = "c1x0"], "">>
           ELSE LET e == Enlarge(d, op) IN <<e[1], IF e[1] THEN [e[2] EXCEPT !.test = "c0x1"] ELSE e[2], e[3]>>
      [] d.test = "c1x0" ->
           LET e == Enlarge(IF op.always THEN d ELSE [d EXCEPT !.cc = Z], op)
           IN <<e[1], IF e[1] THEN [e[2] EXCEPT !.test = IF op.always THEN "c1x1" ELSE "c0x1"] ELSE e[2], e[3]>>
      [] d.test = "c0x1" ->
           LET e == Enlarge([d EXCEPT !.cc = Cd(op, m)], op) IN <<e[1], IF e[1] THEN [e[2] EXCEPT !.test = "c1x1"] ELSE e[2], e[3]>>
      [] OTHER -> Enlarge(d, op)
  ELSE IF ~IsZ(d.cc) \/ IsZ(Cd(op, m)) THEN Enlarge(d, op)
  ELSE <<TRUE, [d EXCEPT !.cc = Cd(op, m)], "L">>
WrongInertia(d0, op, m) ==
  LET f == Conclude(d0)
      e == Enlarge(f[1], op)
  IN IF ~e[1] /\ IsZ(d0.cc) /\ ~IsZ(Cd(op, m))
     THEN LET d2 == [e[2] EXCEPT !.cc = Cd(op, m), !.test = "none", !.hess = IF f[1].hess = "deg" THEN "yet" ELSE f[1].hess]
              e2 == Enlarge(d2, op)
          IN <<e2[1], e2[2], f[2] \o e[3] \o e2[3]>>
     ELSE <<e[1], e[2], f[2] \o e[3]>>

-----------------------------------------------------------------------------
(* control *)
NoAcc == [calls |-> <<>>, ans |-> <<>>, qs |-> <<>>]
Idle == [kind |-> "none", ph |-> "first", nref |-> 0, old |-> 0, psl |-> FALSE, base |-> 0]
Init == \E op \in Opts, n \in NRs :
        /\ o = op /\ nr = n /\ mu = "0.0625" /\ sgn = 1
        /\ hd = HInit(op) /\ valid = FALSE /\ imp = FALSE /\ pc = "idle" /\ cur = Idle
        /\ info = "" /\ regu = Z /\ pert = <<Z, Z>> /\ dig = -1 /\ acc = NoAcc
        /\ h = <<[op |-> "opts", a |-> [o |-> op, nr |-> n], r |-> 0]>>
\* residual ratio of accuracy g exceeds the tolerance; is below the threshold for singularity
Bad(g) == g < 10
Mild(g) == g >= 7
Gains(k) == k >= (IF o.strict THEN 5 ELSE 1)      \* improvement by a refinement step sufficient
Kind(k) == [inexact |-> k \in {"inexact"}, improve |-> k \in {"improve"}, beta |-> IF k \in {"add"} THEN 1 ELSE 0, alpha |-> IF k \in {"neg", "improve"} THEN -1 ELSE 1]

Rec(e) == IF Record THEN Append(h, e) ELSE <<[op |-> e.op]>>
\* finish the call with outcome res ("ok" | "fail" | "exc")
Finish(res, d, v, im, inf, rg, pt, g, ac) ==
  /\ pc' = "idle" /\ cur' = Idle /\ hd' = d /\ valid' = v /\ imp' = im /\ info' = (IF Record THEN inf ELSE "") /\ regu' = (IF Record THEN rg ELSE Z) /\ pert' = (IF Record THEN pt ELSE <<Z, Z>>)
  /\ dig' = IF res = "ok" THEN g ELSE -1
  /\ acc' = NoAcc
  /\ h' = Rec([op |-> "solve", a |-> Kind(cur.kind) @@ [ans |-> ac.ans, qs |-> ac.qs],
                     r |-> [res |-> res, calls |-> [i \in DOMAIN ac.calls |-> [ac.calls[i] EXCEPT !.chk = @ = "yes"]], nq |-> Len(ac.qs), info |-> inf, regu |-> rg, pert |-> pt,
                            dig |-> IF res = "ok" THEN (IF g > 12 THEN 12 ELSE g) ELSE -1]])
  /\ UNCHANGED <<o, nr, mu, sgn>>
Ask(p, c, d, v, im, inf, rg, pt, g, ac) ==
  /\ pc' = p /\ cur' = c /\ hd' = d /\ valid' = v /\ imp' = im /\ info' = (IF Record THEN inf ELSE "") /\ regu' = (IF Record THEN rg ELSE Z) /\ pert' = (IF Record THEN pt ELSE <<Z, Z>>) /\ dig' = g /\ acc' = (IF Record THEN ac ELSE NoAcc)
  /\ UNCHANGED <<o, nr, mu, sgn, h>>
Call(d, chk) == [dx |-> d.cx, dc |-> d.cc, chk |-> chk, nr |-> IF chk = "again" THEN 0 ELSE nr]
Failed(c, d, v, im, inf, rg, pt, g, ac) == Finish(IF c.ph = "ref" THEN "exc" ELSE "fail", d, v, im, inf, rg, pt, g, ac)
Fact == IF o.curv = "off" THEN "yes" ELSE "no"
\* outcome e = <<ok, handler, info>> of choosing new perturbations
Try(e, c, v, im, pre, post, rg, pt, g, ac) ==
  IF ~e[1] THEN Failed(c, e[2], v, im, pre \o e[3], rg, pt, g, ac)
  ELSE Ask("fact", c, e[2], v, im, pre \o e[3] \o post, e[2].cx, pt, g, [ac EXCEPT !.calls = Append(@, Call(e[2], Fact))])
\* one solve of the system; ps: pretend that it is singular
Once(c, d, v, im, inf, rg, pt, g, ac, ps) ==
  IF v /\ ~ps THEN Ask("again", c, d, v, im, inf, rg, pt, g, [ac EXCEPT !.calls = Append(@, Call(d, "again"))])
  ELSE LET im1 == IF v THEN im ELSE FALSE
           e == Consider(d, o, mu)
       IN IF ~e[1] THEN Failed(c, e[2], FALSE, im1, inf \o e[3], rg, pt, g, ac)
          ELSE IF ps THEN Try(IF nr > 0 THEN Singular(e[2], o, mu) ELSE WrongInertia(e[2], o, mu), c, FALSE, im1, inf \o e[3], "", e[2].cx, pt, g, ac)
          ELSE Try(<<TRUE, e[2], e[3]>>, c, FALSE, im1, inf, "", rg, pt, g, ac)
\* loop condition of iterative refinement / of the whole solution
Loop(c, d, v, im, inf, rg, pt, g, ac) ==
  IF c.nref < o.minref \/ Bad(g) THEN Once([c EXCEPT !.ph = "ref"], d, v, im, inf, rg, pt, g, ac, FALSE)
  ELSE Finish("ok", d, v, im, inf, rg, pt, g, ac)
Restart(c, psl) == [c EXCEPT !.ph = "first", !.nref = 0, !.psl = psl]
\* refinement failed: with answer q of a quality request ("none": not asked)
GiveUp(c, d, v, im, inf, rg, pt, g, ac, q) ==
  IF q = "yes" THEN Once(Restart(c, FALSE), d, v, TRUE, inf \o "q", rg, pt, g, ac, FALSE)
  ELSE IF Mild(g) THEN Finish("ok", d, v, im, inf \o "S", rg, pt, g, ac)
  ELSE Once(Restart(c, TRUE), d, v, im, inf \o "s", rg, pt, g, ac, TRUE)
\* a solution was computed with accuracy k
Solved(c, d, v, im, inf, rg, pt, ac, k) ==
  IF c.ph = "first" THEN
    IF Kind(c.kind).inexact THEN Finish("ok", d, v, im, inf, rg, pt, k, ac)
    ELSE Loop([c EXCEPT !.nref = 0], d, v, im, inf, rg, pt, k, ac)
  ELSE LET g == dig + k
           n == c.nref + 1
           c1 == [c EXCEPT !.nref = n]
       IN IF Bad(g) /\ n > o.minref /\ (n > o.maxref \/ ~Gains(k)) THEN
            IF c.psl THEN Finish("ok", d, v, im, inf, rg, pt, g, ac)
            ELSE IF ~im THEN Ask("qref", c1, d, v, im, inf, rg, pt, g, ac)
            ELSE GiveUp(c1, d, v, im, inf, rg, pt, g, ac, "none")
          ELSE Loop(c1, d, v, im, inf, rg, pt, g, ac)

Begin(k) ==
  /\ pc = "idle" /\ (k = "improve" => valid /\ dig >= 0)
  /\ LET c == [Idle EXCEPT !.kind = k] IN
     /\ IF k = "improve" THEN
          \* only the loop: the residual of what was passed in decides
          (IF 0 < o.minref \/ Bad(dig)
           THEN Ask("again", [c EXCEPT !.ph = "ref"], hd, valid, imp, info, regu, pert, dig, [NoAcc EXCEPT !.calls = <<Call(hd, "again")>>])
           ELSE Ask("none", c, hd, valid, imp, info, regu, pert, dig, NoAcc))
        ELSE IF valid THEN Ask("again", c, hd, valid, imp, info, regu, pert, dig, [NoAcc EXCEPT !.calls = <<Call(hd, "again")>>])
        ELSE Ask("begin", c, hd, valid, imp, info, regu, pert, dig, NoAcc)
Cont == pc = "begin" /\ Once(cur, hd, valid, imp, info, regu, pert, dig, acc, FALSE)
Nothing == pc = "none" /\ Finish("ok", hd, valid, imp, info, regu, pert, dig, acc)

\* answers of the augmented system solver: st, neg (-1, 0, 1), k
AnsFact == {[st |-> "success", neg |-> 0, k |-> k] : k \in Accs}
           \cup {[st |-> "singular", neg |-> 0, k |-> 0], [st |-> "fatal", neg |-> 0, k |-> 0]}
           \cup (IF o.curv = "off" THEN {[st |-> "wrong", neg |-> 1, k |-> 0]} \cup (IF nr > 0 THEN {[st |-> "wrong", neg |-> -1, k |-> 0]} ELSE {})
                 ELSE {[st |-> "success", neg |-> 1, k |-> 16]})
Pick(S) == IF Thin THEN RandomSubset(1, S) ELSE S
Ok16 == [st |-> "success", neg |-> 0, k |-> 16]
PickA(S) == IF Thin /\ RandomElement(1..10) <= Calm THEN {Ok16} ELSE Pick(S)
Accept(a, ac) == LET p == <<hd.cx, hd.cc>> IN Solved(cur, hd, TRUE, imp, info, regu, p, ac, a.k)
FactAns(a) ==
  /\ pc = "fact"
  /\ LET ac == [acc EXCEPT !.ans = Append(@, a)] IN
     IF a.st = "fatal" THEN Failed(cur, hd, FALSE, imp, info, regu, pert, dig, ac)
     ELSE IF a.st = "singular" /\ nr > 0 THEN Try(Singular(hd, o, mu), cur, FALSE, imp, info, "", regu, pert, dig, ac)
     ELSE IF a.st = "wrong" /\ a.neg < 0 THEN
       (IF ~imp THEN Ask("qfew", cur, hd, valid, imp, info, regu, pert, dig, ac)
        ELSE Try(Singular(hd, o, mu), cur, FALSE, imp, info, "a", regu, pert, dig, ac))
     ELSE IF a.st # "success" THEN Try(WrongInertia(hd, o, mu), cur, FALSE, imp, info, "", regu, pert, dig, ac)
     ELSE IF o.curv # "off" /\ a.neg # 0 /\ sgn < 0 THEN Try(WrongInertia(hd, o, mu), cur, FALSE, imp, info, "", regu, pert, dig, ac)
     ELSE Accept(a, ac)
QFew(q) ==
  /\ pc = "qfew"
  /\ LET ac == [acc EXCEPT !.qs = Append(@, q)] IN
     IF q THEN Ask("fact", cur, hd, FALSE, TRUE, info \o "q", regu, pert, dig, [ac EXCEPT !.calls = Append(@, Call(hd, Fact))])
     ELSE Try(Singular(hd, o, mu), cur, FALSE, imp, info, "a", regu, pert, dig, ac)
AgainAns(a) ==
  /\ pc = "again"
  /\ LET ac == [acc EXCEPT !.ans = Append(@, a)] IN
     IF a.st # "success" THEN Failed(cur, hd, valid, imp, info, regu, pert, dig, ac)
     ELSE Solved(cur, hd, valid, imp, info, regu, pert, ac, a.k)
QRef(q) ==
  /\ pc = "qref"
  /\ GiveUp(cur, hd, valid, imp, info, regu, pert, dig, [acc EXCEPT !.qs = Append(@, q)], IF q THEN "yes" ELSE "no")
\* between calls: new iterate (some part of the matrix), or something the matrix does not depend on
Change(w) ==
  /\ pc = "idle"
  /\ valid' = (IF w \in {"y", "mu"} THEN valid ELSE FALSE)
  /\ mu' = IF w = "mu" THEN (IF mu = "0.0625" THEN "0.00390625" ELSE "0.0625") ELSE mu
  /\ sgn' = IF w = "flip" THEN -sgn ELSE sgn
  /\ info' = "" /\ regu' = Z /\ dig' = IF w \in {"y", "mu"} THEN dig ELSE -1
  /\ h' = Rec([op |-> "change", a |-> [w |-> w, mu |-> mu'], r |-> 0])
  /\ UNCHANGED <<o, nr, hd, imp, pc, cur, pert, acc>>

Next == \/ Len(h) < MaxLen /\ \E k \in Pick(Kinds) : Begin(k)
        \/ Len(h) < MaxLen /\ h[Len(h)].op # "change" /\ \E w \in Pick(Whats) : Change(w)
        \/ Cont \/ Nothing
        \/ \E a \in PickA(AnsFact) : FactAns(a)
        \/ \E a \in PickA({[st |-> "success", neg |-> 0, k |-> k] : k \in Accs} \cup {[st |-> "singular", neg |-> 0, k |-> 0]}) : AgainAns(a)
        \/ \E q \in Pick(BOOLEAN) : QFew(q) \/ QRef(q)
Spec == Init /\ [][Next]_vars
Cap(x, m) == IF x > m THEN m ELSE x
Last == h[Len(h)]
Canon == <<o, nr, mu, sgn, [hd EXCEPT !.it = Cap(@, 3)], valid, imp, pc, cur, IF dig > 12 THEN 12 ELSE dig, Last.op = "change", regu = Z>>

(* properties of the specification *)
\* every step computation ends: between two changes of the system no trial is repeated
Ends == Len(acc.calls) <= MaxCalls
\* perturbations stay in their limits and are those reported
InRange == /\ DLe(hd.cx, o.max)
           /\ (pc = "idle" /\ valid => pert = <<hd.cx, hd.cc>>)
\* a system is called solved only if its last trial was answered with success (and right inertia when it was asked for)
Solid == (Last.op = "solve" /\ Last.r.res = "ok" /\ ~Last.a.improve) =>
           /\ Last.a.ans # <<>> /\ Last.a.ans[Len(Last.a.ans)].st = "success"
           /\ \E i \in DOMAIN Last.r.calls : Last.a.ans[i].st = "success" /\ <<Last.r.calls[i].dx, Last.r.calls[i].dc>> = Last.r.pert
\* every call ends, whatever the answers (checked without histories)
Fair == Spec /\ WF_vars(Next)
Terminates == pc # "idle" ~> pc = "idle"
EmitT == (pc # "idle" /\ pc' = "idle") => PrintT(ToJson(h'))
EmitH == (Len(h) = MaxLen /\ pc = "idle") => PrintT(ToJson(h))
=============================================================================
