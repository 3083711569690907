------------------------------ MODULE Matrices ------------------------------
(* A matrix object is a tree of matrix types; Full(t) is the matrix it      *)
(* stands for.  Every product, maximum, validity query and extraction into  *)
(* coordinate format is answered from Full(t) alone.  Integer arithmetic.   *)
(* Trees are drawn by a hash of a seed, so that a tree is a function of it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSeed, Depth, MaxLen
VARIABLES t, st, h
vars == <<t, st, h>>

\* ---- drawing -------------------------------------------------------------
Mix(s, k) == LET a == (s * 211 + k * 1019 + 7) % 30011 IN (a * a + 3 * s + k) % 30011
Pick(s, k, n) == (Mix(Mix(s, k), k + 5) \div 7) % n        \* 0..n-1
Val(s, k) == Pick(s, k, 7) - 3
Vals(s, n) == [i \in 1..n |-> Val(s, 100 + i)]
Pos(s, n) == [i \in 1..n |-> LET v == Pick(s, 200 + i, 6) - 3 IN IF v >= 0 THEN v + 1 ELSE v]   \* nonzero
RECURSIVE Total(_)
Total(sp) == IF sp = <<>> THEN 0 ELSE sp[1] + Total(Tail(sp))
RECURSIVE Off(_, _)
Off(sp, k) == IF k = 1 THEN 0 ELSE Off(sp, k - 1) + sp[k - 1]
\* all increasing choices of m positions among n are rotated by the seed: distinct positions in any order
Positions(s, n, m) == [i \in 1..m |-> ((i * (IF n = 3 THEN 1 + Pick(s, 3, 2) ELSE 1) + Pick(s, 4, n)) % n)]
Scalings(s, n) == CASE Pick(s, 9, 3) = 0 -> [v |-> <<>>, r |-> FALSE]
                    [] Pick(s, 9, 3) = 1 -> [v |-> Pos(s + 1, n), r |-> FALSE]
                    [] OTHER -> [v |-> [i \in 1..n |-> IF Pick(s, 20 + i, 2) = 0 THEN 1 ELSE -1], r |-> TRUE]
Dense1 == {"gent", "densegen", "expansion", "transexp", "multivec", "expmv"}
Leaves(nr, nc) == <<"gent", "densegen", "zero", "multivec", "expmv", "gent">>
RECURSIVE Gen(_, _, _, _), GenS(_, _, _)
Leaf(s, nr, nc) ==
  LET m == Total(nr) n == Total(nc)
      k0 == Pick(s, 1, 8)
      k == IF nr = nc /\ k0 = 7 THEN "ident" ELSE IF nr = nc /\ k0 = 6 THEN "diag"
           ELSE IF Len(nr) > 1 \/ Len(nc) > 1 THEN "zero"
           ELSE IF k0 = 0 THEN "zero" ELSE IF k0 = 1 /\ n <= m /\ n > 0 THEN "expansion" ELSE IF k0 = 2 THEN "densegen"
           ELSE IF k0 = 3 THEN "multivec" ELSE IF k0 = 4 THEN "expmv" ELSE "gent"
  IN CASE k = "gent" -> LET nz == Pick(s, 30, m * n + 2)
                            dup == Pick(s, 31, 3) = 0
                            pos == [i \in 1..nz |-> IF dup THEN Pick(s, 40 + i, m * n) ELSE (i * 5 + Pick(s, 32, 7)) % (m * n)]
                            distinct == \A i, j \in 1..nz : i # j => pos[i] # pos[j]
                        IN [k |-> k, nr |-> nr, nc |-> nc, irow |-> [i \in 1..nz |-> 1 + pos[i] \div n], jcol |-> [i \in 1..nz |-> 1 + (pos[i] % n)],
                            val |-> Vals(s, nz), dup |-> ~distinct]
       [] k = "densegen" -> [k |-> k, nr |-> nr, nc |-> nc, val |-> Vals(s, m * n)]      \* column by column
       [] k = "multivec" -> [k |-> k, nr |-> nr, nc |-> nc, val |-> Vals(s, m * n)]      \* column by column
       [] k = "expmv" -> LET withP == Pick(s, 33, 2) = 1
                             w == IF withP THEN 1 + Pick(s, 34, n) ELSE n                 \* length of the row vectors
                         IN [k |-> k, nr |-> nr, nc |-> nc, w |-> w, pos |-> IF withP THEN Positions(s, n, w) ELSE <<>>,
                             null |-> [i \in 1..m |-> Pick(s, 60 + i, 4) = 0], val |-> Vals(s, m * w)]       \* row by row
       [] k = "expansion" -> [k |-> k, nr |-> nr, nc |-> nc, pos |-> Positions(s, m, n), val |-> <<>>]
       [] k = "zero" -> [k |-> k, nr |-> nr, nc |-> nc, val |-> <<>>]
       [] k = "ident" -> [k |-> k, nr |-> nr, nc |-> nc, f |-> Pick(s, 35, 4), val |-> <<>>]
       [] k = "diag" -> [k |-> k, nr |-> nr, nc |-> nc, val |-> Vals(s, m)]
Gen(s, d, nr, nc) ==
  LET k0 == Pick(s, 2, 10) c == Mix(s, 77) m == Total(nr) n == Total(nc) IN
  IF d = 0 \/ k0 = 0 THEN
    IF (Len(nr) > 1 \/ Len(nc) > 1) /\ Pick(s, 8, 4) > 0 THEN
      [k |-> "comp", nr |-> nr, nc |-> nc, cell |-> [i \in 1..Len(nr) |-> [j \in 1..Len(nc) |->
         IF Pick(s, 10 + 3 * i + j, 4) = 0 THEN [k |-> "none"] ELSE Leaf(Mix(c, 3 * i + j), <<nr[i]>>, <<nc[j]>>)]]]
    ELSE Leaf(c, nr, nc)
  ELSE IF k0 \in 1..2 THEN [k |-> "sum", nr |-> nr, nc |-> nc, f |-> <<Val(s, 4), Val(s, 5)>>, terms |-> <<Gen(Mix(c, 1), d - 1, nr, nc), Gen(Mix(c, 2), d - 1, nr, nc)>>]
  ELSE IF k0 \in 3..4 THEN [k |-> "scaled", nr |-> nr, nc |-> nc, row |-> Scalings(Mix(c, 3), m), col |-> Scalings(Mix(c, 4), n), of |-> Gen(Mix(c, 5), d - 1, nr, nc)]
  ELSE IF k0 = 5 THEN [k |-> "trans", nr |-> nr, nc |-> nc, of |-> Gen(Mix(c, 6), d - 1, nc, nr)]
  ELSE IF k0 = 6 /\ nr = nc THEN GenS(c, d, nr)
  ELSE IF k0 = 7 /\ Len(nr) = 1 /\ Len(nc) = 1 THEN Leaf(c, nr, nc)
  ELSE [k |-> "comp", nr |-> nr, nc |-> nc, cell |-> [i \in 1..Len(nr) |-> [j \in 1..Len(nc) |->
         IF Pick(s, 10 + 3 * i + j, 4) = 0 THEN [k |-> "none"] ELSE Gen(Mix(c, 3 * i + j), d - 1, <<nr[i]>>, <<nc[j]>>)]]]
GenS(s, d, sp) ==
  LET k0 == Pick(s, 2, 10) c == Mix(s, 78) n == Total(sp)
      k == IF Len(sp) > 1 /\ (d = 0 \/ k0 \in {2, 3, 8, 9}) THEN "symcomp"
           ELSE IF d > 0 /\ k0 \in 4..5 THEN "symsum" ELSE IF d > 0 /\ k0 \in 6..7 THEN "symscaled"
           ELSE IF k0 = 0 THEN "ident" ELSE IF k0 = 1 THEN "diag" ELSE IF Len(sp) > 1 THEN "diag"
           ELSE IF k0 = 2 THEN "symzero" ELSE IF k0 = 3 THEN "densesym" ELSE IF k0 \in 4..5 THEN "lowrank" ELSE "symt"
  IN CASE k = "symsum" -> [k |-> k, nr |-> sp, nc |-> sp, f |-> <<Val(s, 4), Val(s, 5)>>, terms |-> <<GenS(Mix(c, 1), d - 1, sp), GenS(Mix(c, 2), d - 1, sp)>>]
       [] k = "symscaled" -> [k |-> k, nr |-> sp, nc |-> sp, row |-> LET q == Scalings(Mix(c, 3), n) IN IF q.v = <<>> THEN [v |-> Pos(c, n), r |-> FALSE] ELSE q,
                              of |-> GenS(Mix(c, 5), d - 1, sp)]
       [] k = "symcomp" -> [k |-> k, nr |-> sp, nc |-> sp, cell |-> [i \in 1..Len(sp) |-> [j \in 1..i |->
             IF Pick(s, 10 + 3 * i + j, 4) = 0 THEN [k |-> "none"]
             ELSE IF i = j THEN GenS(Mix(c, 3 * i + j), IF d = 0 THEN 0 ELSE d - 1, <<sp[i]>>)
             ELSE Gen(Mix(c, 3 * i + j), IF d = 0 THEN 0 ELSE d - 1, <<sp[i]>>, <<sp[j]>>)]]]
       [] k = "ident" -> [k |-> k, nr |-> sp, nc |-> sp, f |-> Pick(s, 35, 4), val |-> <<>>]
       [] k = "diag" -> [k |-> k, nr |-> sp, nc |-> sp, val |-> Vals(s, n)]
       [] k = "symzero" -> [k |-> k, nr |-> sp, nc |-> sp, val |-> <<>>]
       [] k = "densesym" -> [k |-> k, nr |-> sp, nc |-> sp, val |-> Vals(s, n * n)]      \* lower triangle of these counts
       [] k = "symt" -> LET nz == Pick(s, 30, n * n + 2)
                            dup == Pick(s, 31, 3) = 0
                            pos == [i \in 1..nz |-> IF dup THEN Pick(s, 40 + i, n * n) ELSE (i * 5 + Pick(s, 32, 7)) % (n * n)]
                            ir(i) == 1 + pos[i] \div n  jc(i) == 1 + (pos[i] % n)
                            distinct == \A i, j \in 1..nz : i # j => {ir(i), jc(i)} # {ir(j), jc(j)}
                        IN [k |-> k, nr |-> sp, nc |-> sp, irow |-> [i \in 1..nz |-> ir(i)], jcol |-> [i \in 1..nz |-> jc(i)], val |-> Vals(s, nz), dup |-> ~distinct]
       [] k = "lowrank" -> LET withP == Pick(s, 33, 2) = 1
                               red == withP /\ Pick(s, 36, 2) = 1
                               w == IF withP THEN 1 + Pick(s, 34, n) ELSE n
                               nv == Pick(s, 37, 3) nu == Pick(s, 38, 3)
                           IN [k |-> k, nr |-> sp, nc |-> sp, w |-> w, pos |-> IF withP THEN Positions(s, n, w) ELSE <<>>, red |-> red,
                               D |-> Vals(s, IF red THEN w ELSE n), V |-> [j \in 1..nv |-> Vals(s + j, w)], U |-> [j \in 1..nu |-> Vals(s + 10 + j, w)], val |-> <<>>]

\* ---- what a tree stands for ----------------------------------------------
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Mat(m, n, F(_, _)) == [i \in 1..m |-> [j \in 1..n |-> F(i, j)]]
Blk(sp, i) == CHOOSE b \in 1..Len(sp) : Off(sp, b) < i /\ i <= Off(sp, b) + sp[b]
Sc(sc, i) == IF sc.v = <<>> THEN 1 ELSE sc.v[i]       \* reciprocals only of 1 and -1
PosOf(pos, i) == {q \in 1..Len(pos) : pos[q] + 1 = i} \* 0-based positions
RECURSIVE Full(_)
Full(x) ==
  LET m == Total(x.nr) n == Total(x.nc) IN
  CASE x.k \in {"gent"} -> Mat(m, n, LAMBDA i, j : Sum([q \in 1..Len(x.val) |-> IF x.irow[q] = i /\ x.jcol[q] = j THEN x.val[q] ELSE 0]))
    [] x.k = "symt" -> Mat(m, n, LAMBDA i, j : Sum([q \in 1..Len(x.val) |-> IF {x.irow[q], x.jcol[q]} = {i, j} THEN x.val[q] ELSE 0]))
    [] x.k \in {"densegen", "multivec"} -> Mat(m, n, LAMBDA i, j : x.val[(j - 1) * m + i])
    [] x.k = "densesym" -> Mat(m, n, LAMBDA i, j : IF i >= j THEN x.val[(j - 1) * m + i] ELSE x.val[(i - 1) * m + j])
    [] x.k = "expmv" -> Mat(m, n, LAMBDA i, j : IF x.null[i] THEN 0 ELSE IF x.pos = <<>> THEN x.val[(i - 1) * x.w + j]
                              ELSE LET q == PosOf(x.pos, j) IN IF q = {} THEN 0 ELSE x.val[(i - 1) * x.w + CHOOSE p \in q : TRUE])
    [] x.k = "expansion" -> Mat(m, n, LAMBDA i, j : IF x.pos[j] + 1 = i THEN 1 ELSE 0)
    [] x.k \in {"zero", "symzero"} -> Mat(m, n, LAMBDA i, j : 0)
    [] x.k = "ident" -> Mat(m, n, LAMBDA i, j : IF i = j THEN x.f ELSE 0)
    [] x.k = "diag" -> Mat(m, n, LAMBDA i, j : IF i = j THEN x.val[i] ELSE 0)
    [] x.k \in {"sum", "symsum"} -> LET A == Full(x.terms[1]) B == Full(x.terms[2]) IN Mat(m, n, LAMBDA i, j : x.f[1] * A[i][j] + x.f[2] * B[i][j])
    [] x.k = "scaled" -> LET A == Full(x.of) IN Mat(m, n, LAMBDA i, j : Sc(x.row, i) * A[i][j] * Sc(x.col, j))
    [] x.k = "symscaled" -> LET A == Full(x.of) IN Mat(m, n, LAMBDA i, j : Sc(x.row, i) * A[i][j] * Sc(x.row, j))
    [] x.k = "trans" -> LET A == Full(x.of) IN Mat(m, n, LAMBDA i, j : A[j][i])
    [] x.k = "comp" -> LET F == [p \in 1..Len(x.nr) |-> [q \in 1..Len(x.nc) |-> IF x.cell[p][q].k = "none" THEN <<>> ELSE Full(x.cell[p][q])]] IN
         Mat(m, n, LAMBDA i, j : LET p == Blk(x.nr, i) q == Blk(x.nc, j) IN IF F[p][q] = <<>> THEN 0 ELSE F[p][q][i - Off(x.nr, p)][j - Off(x.nc, q)])
    [] x.k = "symcomp" -> LET F == [p \in 1..Len(x.nr) |-> [q \in 1..p |-> IF x.cell[p][q].k = "none" THEN <<>> ELSE Full(x.cell[p][q])]] IN
         Mat(m, n, LAMBDA i, j : LET p == Blk(x.nr, i) q == Blk(x.nr, j) IN
              IF p >= q THEN (IF F[p][q] = <<>> THEN 0 ELSE F[p][q][i - Off(x.nr, p)][j - Off(x.nr, q)])
              ELSE IF F[q][p] = <<>> THEN 0 ELSE F[q][p][j - Off(x.nr, q)][i - Off(x.nr, p)])
    [] x.k = "lowrank" ->
         LET L(i, j) == Sum([q \in 1..Len(x.V) |-> x.V[q][i] * x.V[q][j]]) - Sum([q \in 1..Len(x.U) |-> x.U[q][i] * x.U[q][j]])
             S(i, j) == L(i, j) + (IF x.red /\ i = j THEN x.D[i] ELSE 0)
             P(i, j) == IF x.pos = <<>> THEN S(i, j) ELSE IF PosOf(x.pos, i) = {} \/ PosOf(x.pos, j) = {} THEN 0
                        ELSE S(CHOOSE p \in PosOf(x.pos, i) : TRUE, CHOOSE p \in PosOf(x.pos, j) : TRUE)
         IN Mat(m, n, LAMBDA i, j : P(i, j) + (IF ~x.red /\ i = j THEN x.D[i] ELSE 0))
\* maxima are documented as unavailable for some types (the implementation refuses), and for repeated entries
RECURSIVE HasMax(_)
HasMax(x) ==
  CASE x.k \in {"multivec", "expmv", "scaled", "symscaled", "sum", "symsum", "lowrank"} -> FALSE
    [] x.k \in {"gent", "symt"} -> ~x.dup
    [] x.k = "trans" -> HasMax(x.of)
    [] x.k \in {"comp", "symcomp"} -> \A i \in 1..Len(x.cell) : \A j \in 1..Len(x.cell[i]) : x.cell[i][j].k = "none" \/ HasMax(x.cell[i][j])
    [] OTHER -> TRUE
IsSym(x) == x.k \in {"symt", "densesym", "symsum", "symscaled", "symcomp", "lowrank", "diag", "ident", "symzero"}
\* extraction: symmetric matrices list one triangle, so they must not stand inside a general one
RECURSIVE HasTrip(_)
HasTrip(x) ==
  CASE x.k \in {"densegen", "densesym", "multivec", "lowrank"} -> FALSE
    [] x.k \in {"gent", "symt", "expmv", "expansion", "zero", "symzero", "ident", "diag"} -> TRUE
    [] x.k = "sum" -> \A i \in 1..2 : HasTrip(x.terms[i]) /\ (IsSym(x.terms[i]) => x.terms[i].k \in {"ident", "diag", "symzero"})
    [] x.k = "symsum" -> \A i \in 1..2 : HasTrip(x.terms[i])
    [] x.k \in {"scaled", "trans"} -> HasTrip(x.of) /\ (IsSym(x.of) => x.of.k \in {"ident", "diag", "symzero"})
    [] x.k = "symscaled" -> HasTrip(x.of)
    [] x.k = "comp" -> \A i \in 1..Len(x.cell) : \A j \in 1..Len(x.cell[i]) : x.cell[i][j].k = "none" \/ (HasTrip(x.cell[i][j]) /\ (IsSym(x.cell[i][j]) => x.cell[i][j].k \in {"ident", "diag", "symzero"}))
    [] x.k = "symcomp" -> \A i \in 1..Len(x.cell) : \A j \in 1..i : x.cell[i][j].k = "none" \/ (HasTrip(x.cell[i][j]) /\ ((i # j /\ IsSym(x.cell[i][j])) => x.cell[i][j].k \in {"ident", "diag", "symzero"}))

\* ---- stored numbers (for the detection of invalid ones) -------------------
RECURSIVE NVals(_)
NVals(x) ==
  CASE x.k \in {"sum", "symsum"} -> NVals(x.terms[1]) + NVals(x.terms[2])
    [] x.k \in {"scaled", "symscaled", "trans"} -> NVals(x.of)
    [] x.k \in {"comp", "symcomp"} -> Sum([i \in 1..Len(x.cell) |-> Sum([j \in 1..Len(x.cell[i]) |-> IF x.cell[i][j].k = "none" THEN 0 ELSE NVals(x.cell[i][j])])])
    [] x.k = "lowrank" -> Len(x.D) + (Len(x.V) + Len(x.U)) * x.w
    [] x.k = "densesym" -> Len(x.val)
    [] OTHER -> Len(x.val)
\* is the k-th stored number (in the order of the tree) part of the matrix?
RECURSIVE Stored(_, _)
Stored(x, k) ==
  CASE x.k \in {"sum", "symsum"} -> LET a == NVals(x.terms[1]) IN IF k <= a THEN Stored(x.terms[1], k) ELSE Stored(x.terms[2], k - a)
    [] x.k \in {"scaled", "symscaled", "trans"} -> Stored(x.of, k)
    [] x.k \in {"comp", "symcomp"} ->
         LET cells == [q \in 1..(Len(x.cell) * 2) |-> LET i == (q + 1) \div 2 j == IF q % 2 = 1 THEN 1 ELSE 2 IN
                         IF j > Len(x.cell[i]) THEN [k |-> "none"] ELSE x.cell[i][j]]
             nv(c) == IF c.k = "none" THEN 0 ELSE NVals(c)
             before(q) == Sum([p \in 1..(q - 1) |-> nv(cells[p])])
             q == CHOOSE p \in 1..Len(cells) : before(p) < k /\ k <= before(p) + nv(cells[p])
         IN Stored(cells[q], k - before(q))
    [] x.k = "densesym" -> LET m == Total(x.nr) IN ((k - 1) % m) >= (k - 1) \div m         \* lower triangle
    [] x.k = "expmv" -> ~x.null[1 + (k - 1) \div x.w]
    [] OTHER -> TRUE

\* ---- the calls -------------------------------------------------------------
Row(A, i, x) == Sum([j \in 1..Len(x) |-> A[i][j] * x[j]])
Col(A, j, x) == Sum([i \in 1..Len(x) |-> A[i][j] * x[i]])
Abs(v) == IF v < 0 THEN -v ELSE v
RECURSIVE MaxSeq(_, _)
MaxSeq(q, e) == IF q = <<>> THEN e ELSE MaxSeq(Tail(q), IF q[1] > e THEN q[1] ELSE e)
Hom(s, n) == IF Pick(s, 50, 3) = 0 THEN [i \in 1..n |-> Val(s, 51)] ELSE Vals(s, n)
Step(op, a, r) == h' = Append(h, [op |-> op, a |-> a, r |-> r]) /\ UNCHANGED t
M == Total(t.nr)
N == Total(t.nc)
R1(n) == RandomElement(1..n)
\* beta = 0: the old content of y does not matter (the replay puts NaN there)
Mult == \E s \in {R1(30000)}, b \in {RandomElement({-2, 0, 0, 1, 3})}, al \in {RandomElement({-2, -1, 0, 1, 1, 2})} :
          LET A == Full(t) x == Hom(s, N) y == Hom(s + 1, M) IN
          Step("mult", <<al, x, b, y>>, [i \in 1..M |-> al * Row(A, i, x) + b * y[i]])
TMult == \E s \in {R1(30000)}, b \in {RandomElement({-2, 0, 0, 1, 3})}, al \in {RandomElement({-2, -1, 0, 1, 1, 2})} :
          LET A == Full(t) x == Hom(s, M) y == Hom(s + 1, N) IN
          Step("tmult", <<al, x, b, y>>, [j \in 1..N |-> al * Col(A, j, x) + b * y[j]])
RowMax == \E s \in {R1(30000)}, init \in BOOLEAN :
          /\ HasMax(t) = TRUE
          /\ LET A == Full(t) y == [i \in 1..M |-> Pick(s, 100 + i, 4)] IN
             Step("rowamax", <<init, y>>, [i \in 1..M |-> MaxSeq([j \in 1..N |-> Abs(A[i][j])], IF init THEN 0 ELSE y[i])])
ColMax == \E s \in {R1(30000)}, init \in BOOLEAN :
          /\ HasMax(t) = TRUE
          /\ LET A == Full(t) y == [j \in 1..N |-> Pick(s, 100 + j, 4)] IN
             Step("colamax", <<init, y>>, [j \in 1..N |-> MaxSeq([i \in 1..M |-> Abs(A[i][j])], IF init THEN 0 ELSE y[j])])
Two(s, n) == IF Pick(s, 52, 3) = 0 THEN [i \in 1..n |-> 2] ELSE [i \in 1..n |-> 1 + Pick(s, 300 + i, 2)]
AddMSinvZ == \E s \in {R1(30000)}, al \in {RandomElement({-2, -1, 0, 1, 1, 2})} :
          LET A == Full(t) S == Two(s, N) W == Hom(s + 2, N) X == Hom(s + 3, M) IN       \* Z = W*S
          Step("addmsinvz", <<al, S, [j \in 1..N |-> S[j] * W[j]], X>>, [i \in 1..M |-> X[i] + al * Row(A, i, W)])
Sinv == \E s \in {R1(30000)}, al \in {RandomElement({-2, -1, 0, 1, 1, 2})} :
          LET A == Full(t) S == Two(s, N) RR == Hom(s + 2, N) Z == Hom(s + 3, N) D == Hom(s + 4, M) IN
          Step("sinv", <<al, S, RR, Z, D>>, [j \in 1..N |-> RR[j] + al * Z[j] * Col(A, j, D)])     \* S times the result
Triplets == \E ro \in {RandomElement(0..2)}, co \in {RandomElement(0..2)} :
          /\ HasTrip(t) = TRUE
          /\ LET A == Full(t) IN
             Step("trip", <<IF IsSym(t) THEN 0 ELSE ro, IF IsSym(t) THEN 0 ELSE co, IsSym(t)>>,
                  Mat(M, N, LAMBDA i, j : IF IsSym(t) /\ i < j THEN 0 ELSE A[i][j]))
Valid == Step("valid", <<>>, 1)
\* the object itself is changed through its public setter after it has been asked: leaves only
Settable == t.k \in {"gent", "densegen", "symt", "densesym", "diag", "multivec", "expmv"} /\ Len(t.val) > 0
Reset == /\ Settable
         /\ \E s \in {R1(30000)} : LET v == Vals(s, Len(t.val)) IN
              /\ h' = Append(h, [op |-> "reset", a |-> <<v>>, r |-> 0]) /\ t' = [t EXCEPT !.val = v]
Refactor == /\ t.k = "ident" /\ \E f \in {RandomElement(0..4)} : h' = Append(h, [op |-> "reset", a |-> <<f>>, r |-> 0]) /\ t' = [t EXCEPT !.f = f]
Poison == \E k \in {R1(30000)}, w \in {RandomElement({"NaN", "Infinity", "-Infinity"})} : /\ NVals(t) > 0
          /\ LET kk == 1 + (k % NVals(t)) IN Step("poison", <<kk, w>>, IF Stored(t, kk) THEN 0 ELSE 1)

Spaces == {<<1>>, <<2>>, <<3>>, <<2, 1>>, <<1, 2>>}
Init == t = [k |-> "none"] /\ st = 0 /\ h = <<>>
Build == \E s \in {R1(MaxSeed)}, d \in {RandomElement(0..Depth)}, nr \in {RandomElement(Spaces)}, nc \in {RandomElement(Spaces)}, sym \in {RandomElement(1..3)} :
          /\ t' = IF sym = 1 THEN GenS(s, d, nr) ELSE Gen(s, d, nr, nc)
          /\ h' = <<[op |-> "build", a |-> <<t'>>, r |-> 0]>>
Ops == \/ Mult \/ TMult \/ RowMax \/ ColMax \/ AddMSinvZ \/ Sinv \/ Triplets \/ Valid \/ Reset \/ Refactor
Next == /\ st' = st + 1
        /\ IF st = 0 THEN Build ELSE IF st = MaxLen - 1 THEN (IF NVals(t) > 0 THEN Poison ELSE Valid) ELSE st < MaxLen /\ Ops
Spec == Init /\ [][Next]_vars
Small(v) == Abs(v) < 1000000
EmitH == (st = MaxLen) => PrintT(ToJson(h))
=============================================================================
