------------------------------- MODULE AugSys ------------------------------
(* Assembly of the augmented system (C12): from Hessian, diagonal terms,     *)
(* Jacobians and perturbations to the one symmetric matrix handed to the     *)
(* linear solver, which must be a new matrix (new tag) iff an input changed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS NX, NS, NC,  \* dimensions (as many d as s)
          Deltas, MaxLen, Thin, Resets
VARIABLES cur,   \* [w, dx, ds, jc, dc, jd, dd -> version (0: none)], wf, deltas
          cnt,   \* version counter
          last,  \* inputs of the last call, <<>> before the first
          h
vars == <<cur, cnt, last, h>>
In == {"w", "dx", "ds", "jc", "dc", "jd", "dd"}
Del == {"x", "s", "c", "d"}
N == NX + NS + NC + NS
\* element values of version v of an input
WV(v, i, j) == ((v * 7 + (IF i < j THEN j * 3 + i ELSE i * 3 + j) * 5) % 13) - 6
DV(k, v, i) == ((v * 5 + i * 3 + k) % 9) - 2
JV(k, v, i, j) == ((v * 3 + i * 5 + j * 7 + k) % 11) - 5
\* blocks 1..4 of a global index
Blk(i) == IF i <= NX THEN 1 ELSE IF i <= NX + NS THEN 2 ELSE IF i <= NX + NS + NC THEN 3 ELSE 4
Loc(i) == LET b == Blk(i) IN IF b = 1 THEN i ELSE IF b = 2 THEN i - NX ELSE IF b = 3 THEN i - NX - NS ELSE i - NX - NS - NC
Diag(k, v, i) == IF v = 0 THEN 0 ELSE DV(k, v, i)
\* element (i,j), i >= j, of the system for inputs u
Elem(u, i, j) ==
  LET bi == Blk(i)  bj == Blk(j)  a == Loc(i)  b == Loc(j) IN
  IF bi = 1 /\ bj = 1 THEN (IF u.w = 0 THEN 0 ELSE u.wf * WV(u.w, a, b)) + (IF a = b THEN Diag(1, u.dx, a) + u.x ELSE 0)
  ELSE IF bi = 2 /\ bj = 2 THEN (IF a = b THEN Diag(2, u.ds, a) + u.s ELSE 0)
  ELSE IF bi = 3 /\ bj = 1 THEN JV(3, u.jc, a, b)
  ELSE IF bi = 3 /\ bj = 3 THEN (IF a = b THEN Diag(3, u.dc, a) - u.c ELSE 0)
  ELSE IF bi = 4 /\ bj = 1 THEN JV(4, u.jd, a, b)
  ELSE IF bi = 4 /\ bj = 2 THEN (IF a = b THEN -1 ELSE 0)
  ELSE IF bi = 4 /\ bj = 4 THEN (IF a = b THEN Diag(4, u.dd, a) - u.d ELSE 0)
  ELSE 0
Dense(u) == [i \in 1..N |-> [j \in 1..i |-> Elem(u, i, j)]]
Rhs(r, i) == r * 10 + i

Init == /\ cur = [w |-> 1, dx |-> 0, ds |-> 0, jc |-> 1, dc |-> 0, jd |-> 1, dd |-> 0, wf |-> 1, x |-> 0, s |-> 0, c |-> 0, d |-> 0]
        /\ cnt = 1 /\ last = <<>> /\ h = <<>>
Call(u, what, fresh, nr, ans, chk) ==
  /\ h' = Append(h, [op |-> "solve", a |-> [u |-> u, what |-> what, fresh |-> fresh, nr |-> nr, ans |-> ans, chk |-> chk],
                     r |-> [m |-> Dense(u), new |-> (last = <<>> \/ last # <<u>>), rhs |-> [r \in 1..nr |-> [i \in 1..N |-> Rhs(r, i)]],
                            st |-> ans, sol |-> [r \in 1..nr |-> [i \in 1..N |-> IF ans = "success" THEN 100 * r + i ELSE -77]], chk |-> chk]])
  /\ cur' = u /\ last' = <<u>>
Pick(S) == IF Thin THEN RandomSubset(1, S) ELSE S
Step ==
  \E nr \in Pick({1, 2}), ans \in Pick({"success", "singular"}), chk \in Pick(BOOLEAN) :
    (nr = 2 => ans = "success" /\ ~chk) /\
    \/ Call(cur, "none", FALSE, nr, ans, chk) /\ UNCHANGED cnt
    \/ \E k \in In, fresh \in BOOLEAN :           \* new values: in the same object, or another object
         /\ Call([cur EXCEPT ![k] = cnt + 1], k, fresh, nr, ans, chk) /\ cnt' = cnt + 1
    \/ \E k \in In \ {"jc", "jd"} :               \* leave it out
         /\ cur[k] # 0 /\ last # <<>> /\ Call([cur EXCEPT ![k] = 0], k, FALSE, nr, ans, chk) /\ UNCHANGED cnt
    \/ \E k \in Del, v \in Deltas : cur[k] # v /\ Call([cur EXCEPT ![k] = v], k, FALSE, nr, ans, chk) /\ UNCHANGED cnt
    \/ cur.w # 0 /\ Call([cur EXCEPT !.wf = 1 - cur.wf], "wf", FALSE, nr, ans, chk) /\ UNCHANGED cnt
Reset(warm) == /\ Resets /\ last # <<>> /\ (~warm => cur.w # 0)
               /\ h' = Append(h, [op |-> "init", a |-> [warm |-> warm], r |-> TRUE])
               /\ last' = IF warm THEN last ELSE <<>>
               /\ UNCHANGED <<cur, cnt>>
Next == Len(h) < MaxLen /\ (Step \/ \E w \in BOOLEAN : Reset(w))
Spec == Init /\ [][Next]_vars
Canon == <<[k \in In |-> cur[k] # 0], [k \in Del |-> cur[k]], cur.wf, last = <<>>>>
EmitT == PrintT(ToJson(h'))
EmitH == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
