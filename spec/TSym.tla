------------------------------- MODULE TSym --------------------------------
(* The wrapper around symmetric linear solvers (C12): a client hands it      *)
(* symmetric matrices in coordinate form and right-hand sides; a backend     *)
(* factorizes them in the index format of its choice.  The specification     *)
(* gives, for every client call, the exact calls the backend receives        *)
(* (structure, values, right-hand sides, whether a factorization is needed)  *)
(* and what the client gets back, for every sequence of backend answers.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Randomization
CONSTANTS Fmts,     \* index formats of the backend: 0 triplet, 1/2 CSR upper (offset 0/1), 3/4 CSR full (offset 0/1)
          Scals,    \* "none", "always", "demand"
          Dims, NEnt, \* matrices: every list of 1..NEnt coordinates (both triangles, duplicates), if AllPats
          AllPats,
          Scripts,  \* sequences of backend answers for one request
          MaxLen,
          Objs, NumRhs, QAns, Warm,
          Thin,     \* random choice of arguments (simulation)
          OnlyAll   \* restrict to one solve after the initialization
VARIABLES cfg,      \* fmt, scal, pattern
          ver,      \* matrix object -> version of its values
          ready,    \* wrapper initialized at all; structure told to the backend
          have,     \* which matrix the backend has a usable factorization of: <<>> or <<obj, ver, chk, num>>
          dirty,    \* a change is required before the next solve (client discipline after a warm start)
          scal,     \* [on, just, n]: scaling active, newly activated, number of computed scalings
          nsolve, h
vars == <<cfg, ver, ready, have, dirty, scal, nsolve, h>>

-----------------------------------------------------------------------------
(* matrices *)
Val(o, v, k) == ((o * 5 + v * 3 + k * 7) % 11) - 5
Lo(e) == IF e[1] <= e[2] THEN e[1] ELSE e[2]
Hi(e) == IF e[1] <= e[2] THEN e[2] ELSE e[1]
Off(f) == IF f \in {2, 4} THEN 1 ELSE 0
RECURSIVE Grid(_, _, _)
Grid(n, i, j) == IF i > n THEN <<>> ELSE IF j > n THEN Grid(n, i + 1, 1) ELSE <<<<i, j>>>> \o Grid(n, i, j + 1)
Stored(f, p, i, j) == \E k \in DOMAIN p.e : LET e == p.e[k] IN (Lo(e) = i /\ Hi(e) = j) \/ (f \in {3, 4} /\ Lo(e) = j /\ Hi(e) = i)
Positions(f, p) == LET St(q) == Stored(f, p, q[1], q[2]) IN SelectSeq(Grid(p.n, 1, 1), St)
\* the structure in format f
Structure(f, p) ==
  IF f = 0 THEN [n |-> p.n, nz |-> Len(p.e), ia |-> [k \in DOMAIN p.e |-> p.e[k][1]], ja |-> [k \in DOMAIN p.e |-> p.e[k][2]]]
  ELSE LET q == Positions(f, p) IN
       [n |-> p.n, nz |-> Len(q), ia |-> [r \in 1..(p.n + 1) |-> Off(f) + Cardinality({k \in DOMAIN q : q[k][1] < r})],
        ja |-> [k \in DOMAIN q |-> q[k][2] - 1 + Off(f)]]
RECURSIVE SumOver(_, _)
SumOver(F, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN F[k] + SumOver(F, S \ {k})
Pow2(x) == IF x = 0 THEN 1 ELSE IF x = 1 THEN 2 ELSE 4
Fac(n, i) == Pow2((i + n) % 3)
\* values in format f, scaled with the n-th computed scaling (n = 0: unscaled)
Values(f, p, o, v, n) ==
  LET S(i) == IF n = 0 THEN 1 ELSE Fac(n, i)
      t == [k \in DOMAIN p.e |-> Val(o, v, k) * S(p.e[k][1]) * S(p.e[k][2])]
  IN IF f = 0 THEN t
     ELSE LET q == Positions(f, p) IN
          [m \in DOMAIN q |-> SumOver(t, {k \in DOMAIN p.e : Lo(p.e[k]) = (IF q[m][1] <= q[m][2] THEN q[m][1] ELSE q[m][2])
                                                          /\ Hi(p.e[k]) = (IF q[m][1] <= q[m][2] THEN q[m][2] ELSE q[m][1])})]
Raw(p, o, v) == [k \in DOMAIN p.e |-> Val(o, v, k)]
Rhs(r, i) == r * 10 + i - 4
Sol(b, i) == 2 * b + i      \* what the backend "computes"

-----------------------------------------------------------------------------
Ent(n) == {<<i, j>> : i \in 1..n, j \in 1..n}
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, m) == IF m = 0 THEN {<<>>} ELSE LET T == SeqsUpTo(S, m - 1) IN T \cup {Append(s, x) : s \in {u \in T : Len(u) = m - 1}, x \in S}
Few == {[n |-> 1, e |-> <<<<1, 1>>>>],
        [n |-> 2, e |-> <<<<1, 1>>, <<2, 1>>, <<2, 2>>>>],
        [n |-> 3, e |-> <<<<3, 1>>, <<1, 3>>, <<2, 2>>, <<1, 1>>, <<2, 2>>>>],
        [n |-> 3, e |-> <<<<1, 1>>, <<3, 3>>, <<3, 1>>>>],
        [n |-> 4, e |-> <<<<4, 2>>, <<1, 1>>, <<2, 4>>, <<4, 4>>, <<1, 1>>, <<4, 1>>>>]}
Pats == IF AllPats THEN UNION {{[n |-> n, e |-> s] : s \in SeqsUpTo(Ent(n), NEnt) \ {<<>>}} : n \in Dims} ELSE Few

NoHave == <<>>
Init == /\ cfg = [fmt |-> 0, scal |-> "none", pat |-> [n |-> 0, e |-> <<>>]]
        /\ ver = [o \in Objs |-> 0] /\ ready = FALSE /\ have = NoHave /\ dirty = FALSE
        /\ scal = [on |-> FALSE, just |-> FALSE, n |-> 0] /\ nsolve = 0 /\ h = <<>>

\* (re-)initialization; warm: same structure as before
Start(f, sc, p, w) ==
  /\ (w => cfg.pat.n > 0 /\ f = cfg.fmt /\ sc = cfg.scal /\ p = cfg.pat /\ ready)
  /\ cfg' = [fmt |-> f, scal |-> sc, pat |-> p]
  /\ ver' = IF w THEN ver ELSE [o \in Objs |-> 0]
  /\ ready' = FALSE
  /\ have' = NoHave /\ dirty' = w
  /\ scal' = [on |-> sc = "always", just |-> FALSE, n |-> scal.n]
  /\ nsolve' = nsolve
  /\ h' = Append(h, [op |-> "init", a |-> [fmt |-> f, scal |-> sc, pat |-> p, warm |-> w], r |-> TRUE])

\* one request; script: answers of the backend, the first one to the structure if it has to be told
Solve(o, chg, nr, chk, num, sinit, script) ==
  /\ cfg.pat.n > 0
  /\ (dirty => chg)
  /\ LET v == IF chg THEN ver[o] + 1 ELSE ver[o]
         p == cfg.pat  f == cfg.fmt
         same == have # NoHave /\ have[1] = o /\ have[2] = v
         again == Len(script) - 1
         fin == script[Len(script)]
         told == ~ready
         new == ~same \/ scal.just
         n1 == IF new /\ scal.on THEN scal.n + 1 ELSE scal.n
         used == IF scal.on THEN n1 ELSE 0
         S(i) == IF used = 0 THEN 1 ELSE Fac(used, i)
         st == [c |-> "struct", d |-> Structure(f, p)]
         vals == Values(f, p, o, v, used)
         rhs == [k \in 1..(nr * p.n) |-> S(((k - 1) % p.n) + 1) * Rhs(((k - 1) \div p.n) + 1, ((k - 1) % p.n) + 1)]
         one(k) == [c |-> "solve", new |-> new, vals |-> IF new \/ k > 1 THEN vals ELSE <<>>, nr |-> nr, rhs |-> rhs, chk |-> chk, num |-> num]
         calls == (IF told THEN <<st>> ELSE <<>>) \o (IF told /\ sinit # "success" THEN <<>> ELSE [k \in 1..Len(script) |-> one(k)])
         status == IF told /\ sinit # "success" THEN sinit ELSE fin
         sol == IF status = "success"
                THEN [r \in 1..nr |-> [i \in 1..p.n |-> S(i) * Sol(S(i) * Rhs(r, i), i)]]
                ELSE [r \in 1..nr |-> [i \in 1..p.n |-> -77]]
     IN /\ (~told => sinit = "success")
        \* an unchanged factorized matrix is not asked for with other inertia requirements
        /\ (same => ~chk \/ (have[3] /\ have[4] = num))
        /\ (~chk => num = 0) /\ (~chk => fin # "wrong")
        /\ h' = Append(h, [op |-> "solve", a |-> [o |-> o, chg |-> chg, nr |-> nr, chk |-> chk, num |-> num, sinit |-> sinit, script |-> script],
                           r |-> [calls |-> calls, st |-> status, sol |-> sol,
                                  sc |-> IF n1 > scal.n /\ status = fin /\ (~told \/ sinit = "success") THEN <<Raw(p, o, v)>> ELSE <<>>]])
        /\ ver' = [ver EXCEPT ![o] = v]
        /\ IF told /\ sinit # "success"
           THEN ready' = FALSE /\ have' = have /\ scal' = scal /\ nsolve' = nsolve /\ dirty' = dirty
           ELSE /\ ready' = TRUE
                /\ have' = IF fin = "success" THEN (IF new THEN <<o, v, chk, num>> ELSE have) ELSE NoHave
                /\ scal' = [scal EXCEPT !.just = FALSE, !.n = n1]
                /\ nsolve' = nsolve + Len(script)
                /\ dirty' = FALSE
        /\ UNCHANGED cfg

IncQ(ans) ==
  /\ cfg.pat.n > 0 /\ ready
  /\ LET sw == cfg.scal = "demand" /\ ~scal.on IN
     /\ (sw => ans)
     /\ h' = Append(h, [op |-> "incq", a |-> [ans |-> ans], r |-> [ret |-> sw \/ ans, calls |-> IF sw THEN 0 ELSE 1]])
     /\ scal' = IF sw THEN [scal EXCEPT !.on = TRUE, !.just = TRUE] ELSE scal
  /\ UNCHANGED <<cfg, ver, ready, have, dirty, nsolve>>
Neg == cfg.pat.n > 0 /\ h' = Append(h, [op |-> "neg", a |-> [x |-> 0], r |-> nsolve]) /\ UNCHANGED <<cfg, ver, ready, have, dirty, scal, nsolve>>

Pick(S) == IF Thin THEN RandomSubset(1, S) ELSE S
Next == /\ Len(h) < MaxLen
        /\ IF Len(h) = 0 THEN \E f \in Fmts, sc \in Scals, p \in Pats : Start(f, sc, p, FALSE)
           ELSE \/ \E o \in Pick(Objs), chg \in BOOLEAN, nr \in Pick(NumRhs), chk \in BOOLEAN, num \in {0, 1}, si \in (IF Thin /\ RandomElement(1..4) > 1 THEN {"success"} ELSE {"success", "fatal"}), s \in Pick(Scripts) :
                      (OnlyAll => o = 1 /\ chg /\ ~chk /\ si = "success") /\ Solve(o, chg, nr, chk, num, si, s)
                \/ ~OnlyAll /\ \E a \in QAns : IncQ(a)
                \/ ~OnlyAll /\ Neg
                \/ Warm /\ Start(cfg.fmt, cfg.scal, cfg.pat, TRUE)
                \/ Warm /\ ~AllPats /\ \E p \in Few : Start(cfg.fmt, cfg.scal, p, FALSE)
Spec == Init /\ [][Next]_vars
Canon == <<cfg, [o \in Objs |-> IF have # NoHave /\ have[1] = o /\ have[2] = ver[o] THEN 1 ELSE 0], ready,
           IF have = NoHave THEN <<>> ELSE <<have[3], have[4]>>, dirty, scal.on, scal.just, scal.n % 3>>
\* no answer "success" without a factorization of the current values
Sound == have # NoHave => have[1] \in Objs /\ have[2] <= ver[have[1]]
EmitT == PrintT(ToJson(h'))
EmitH == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
