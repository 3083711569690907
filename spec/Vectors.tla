------------------------------ MODULE Vectors ------------------------------
(* The vector algebra: every vector is a plain sequence of numbers; every   *)
(* operation is element-wise arithmetic; every query is recomputed from the *)
(* current elements.  How a vector is stored (one scalar, an array, parts)  *)
(* and which norms are remembered is invisible.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Doubles

CONSTANTS N,        \* dimension
          Parts,    \* lengths of the parts (sums up to N); <<N>>: a vector without parts
          Coefs,    \* scalar factors
          Starts,   \* contents used for setting a vector: <<"s", x>> or <<"v", seq>>
          Mode,     \* "one": set up, (ask), one operation, ask;  "walk": any history
          MaxLen

VARIABLES x,        \* vector -> contents, <<>>: not initialised
          ph,       \* phase (mode "one")
          h
vars == <<x, ph, h>>
V == 1..3
E(v, F(_)) == [i \in 1..Len(x[v]) |-> F(i)]
Fin(v) == x[v] # <<>> /\ \A i \in 1..N : DFinite(x[v][i])
Sep(a) == DEq(a, "0") \/ DLt("1e-6", DAbs(a))      \* not within rounding distance of zero
AllSep(v) == \A i \in 1..N : Sep(x[v][i])
Nz(v) == \A i \in 1..N : DLt("1e-6", DAbs(x[v][i]))
Pos(v) == \A i \in 1..N : DLt("1e-6", x[v][i])
Small(v) == \A i \in 1..N : DLt(DAbs(x[v][i]), "1e6")
Sgn(a) == IF DLt("0", a) THEN "1" ELSE IF DLt(a, "0") THEN "-1" ELSE "0"
Log(op, a, r) == h' = Append(h, [op |-> op, a |-> a, r |-> r])
All(y) == <<y[1], y[2], y[3]>>

\* ---- queries -------------------------------------------------------------
SeqMap(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE Fold(_, _, _)
Fold(F(_, _), e, s) == IF s = <<>> THEN e ELSE Fold(F, F(e, s[1]), Tail(s))
Query(q, v, w) ==
  LET s == x[v] IN
  CASE q = "nrm2" -> DSqrt(DDot(s, s))
    [] q = "asum" -> DSumSeq(SeqMap(s, DAbs))
    [] q = "amax" -> Fold(DMax, "0", SeqMap(s, DAbs))
    [] q = "max" -> Fold(DMax, s[1], s)
    [] q = "min" -> Fold(DMin, s[1], s)
    [] q = "sum" -> DSumSeq(s)
    [] q = "sumlogs" -> IF Pos(v) THEN DSumSeq(SeqMap(s, DLog)) ELSE "any"
    [] q = "dot" -> DDot(s, x[w])
    [] q = "frac" -> IF Pos(v) /\ AllSep(w)
         THEN Fold(DMin, "1", [i \in 1..N |-> IF DLt(x[w][i], "0") THEN DDiv(DMul("0.75", s[i]), DNeg(x[w][i])) ELSE "1"]) ELSE "any"
Queries == {"nrm2", "asum", "amax", "max", "min", "sum", "sumlogs", "dot", "frac"}
Ask(q, v, w) == /\ Fin(v) /\ Fin(w) /\ (q \notin {"dot", "frac"} => w = v) /\ Log(q, <<v, w>>, <<Query(q, v, w)>> \o All(x)) /\ UNCHANGED x
Valid(v) == /\ x[v] # <<>> /\ Log("valid", <<v>>, <<IF Fin(v) THEN "1" ELSE "0">> \o All(x)) /\ UNCHANGED x
AskAllR(v) == [q \in 1..7 |-> Query(<<"nrm2", "asum", "amax", "max", "min", "sum", "sumlogs">>[q], v, v)]
              \o [i \in 1..6 |-> LET w == (i + 1) \div 2 IN IF Fin(w) THEN Query(IF i % 2 = 1 THEN "dot" ELSE "frac", v, w) ELSE "any"]
AskAll(v) == Log("ask", <<v>>, IF Fin(v) THEN AskAllR(v) \o <<"1">> \o All(x) ELSE <<"0">> \o All(x)) /\ UNCHANGED x

\* ---- operations (vector v is changed) -------------------------------------
Do(op, v, a, new) == /\ x' = [x EXCEPT ![v] = new] /\ Log(op, <<v>> \o a, All(x'))
Term(a, s, i) == IF DEq(a, "0") THEN "0" ELSE DMul(a, s[i])
Start(v, s) == IF s[1] = "s" THEN Do("set", v, <<s[2]>>, [i \in 1..N |-> s[2]]) ELSE Do("vals", v, <<s[2]>>, s[2])
Copy(v, w) == x[w] # <<>> /\ Do("copy", v, <<w>>, x[w])
Scal(v, a) == Fin(v) /\ Do("scal", v, <<a>>, E(v, LAMBDA i : DMul(a, x[v][i])))
Axpy(v, a, w) == Fin(v) /\ Fin(w) /\ Do("axpy", v, <<a, w>>, E(v, LAMBDA i : DAdd(x[v][i], DMul(a, x[w][i]))))
AddS(v, a) == Fin(v) /\ Do("adds", v, <<a>>, E(v, LAMBDA i : DAdd(x[v][i], a)))
Unary(op, v) ==
  /\ Fin(v)
  /\ \/ op = "recip" /\ AllSep(v) /\ Do(op, v, <<>>, E(v, LAMBDA i : DDiv("1", x[v][i])))
     \/ op = "abs" /\ Do(op, v, <<>>, E(v, LAMBDA i : DAbs(x[v][i])))
     \/ op = "sqrt" /\ (\A i \in 1..N : DLe("0", x[v][i])) /\ Do(op, v, <<>>, E(v, LAMBDA i : DSqrt(x[v][i])))
     \/ op = "sgn" /\ AllSep(v) /\ Do(op, v, <<>>, E(v, LAMBDA i : Sgn(x[v][i])))
Unaries == {"recip", "abs", "sqrt", "sgn"}
Binary(op, v, w) ==
  \/ op = "ediv" /\ Fin(v) /\ Fin(w) /\ Nz(w) /\ Do(op, v, <<w>>, E(v, LAMBDA i : DDiv(x[v][i], x[w][i])))
  \/ op = "emul" /\ Fin(v) /\ Fin(w) /\ Do(op, v, <<w>>, E(v, LAMBDA i : DMul(x[v][i], x[w][i])))
  \/ op = "esel" /\ Fin(v) /\ AllSep(v) /\ x[w] # <<>>
       /\ Do(op, v, <<w>>, E(v, LAMBDA i : IF DEq(x[v][i], "0") THEN "0" ELSE DMul(Sgn(x[v][i]), x[w][i])))
  \/ op = "emax" /\ Fin(v) /\ Fin(w) /\ Do(op, v, <<w>>, E(v, LAMBDA i : DMax(x[v][i], x[w][i])))
  \/ op = "emin" /\ Fin(v) /\ Fin(w) /\ Do(op, v, <<w>>, E(v, LAMBDA i : DMin(x[v][i], x[w][i])))
Binaries == {"ediv", "emul", "esel", "emax", "emin"}
Add2(v, a, w1, b, w2, cc) ==     \* v := a*w1 + b*w2 + cc*v
  /\ (DEq(a, "0") \/ Fin(w1)) /\ (DEq(b, "0") \/ Fin(w2)) /\ (DEq(cc, "0") \/ Fin(v))
  /\ Do("add2", v, <<a, w1, b, w2, cc>>, [i \in 1..N |-> DAdd(DAdd(Term(a, x[w1], i), Term(b, x[w2], i)), Term(cc, x[v], i))])
Add1(v, a, w, cc) ==
  /\ (DEq(a, "0") \/ Fin(w)) /\ (DEq(cc, "0") \/ Fin(v))
  /\ Do("add1", v, <<a, w, cc>>, [i \in 1..N |-> DAdd(Term(a, x[w], i), Term(cc, x[v], i))])
Quot(v, a, z, s, cc) ==          \* v := a*z/s + cc*v
  /\ Fin(z) /\ Fin(s) /\ Nz(s) /\ z # v /\ s # v /\ (DEq(cc, "0") \/ Fin(v))
  /\ Do("quot", v, <<a, z, s, cc>>, [i \in 1..N |-> DAdd(DDiv(DMul(a, x[z][i]), x[s][i]), Term(cc, x[v], i))])
New(v) == x' = [x EXCEPT ![v] = <<>>] /\ Log("new", <<v>>, All(x'))
NewCopy(v, w) == v # w /\ x[w] # <<>> /\ Do("newcopy", v, <<w>>, x[w])

\* ---- parts ---------------------------------------------------------------
RECURSIVE Off(_)
Off(k) == IF k = 1 THEN 0 ELSE Off(k - 1) + Parts[k - 1]
Put(s, o, t) == [i \in 1..N |-> IF i > o /\ i <= o + Len(t) THEN t[i - o] ELSE s[i]]
StartOf(s, n) == IF s[1] = "s" THEN [i \in 1..n |-> s[2]] ELSE SubSeq(s[2], 1, n)
\* a part is fetched for changing and set / scaled, or replaced by another vector
Part(v, op, k, s) == /\ Len(Parts) > 1 /\ x[v] # <<>>
                     /\ Do(op, v, <<k - 1, s>>, Put(x[v], Off(k), StartOf(s, Parts[k])))
PartScal(v, k, a) == /\ Len(Parts) > 1 /\ Fin(v)
                     /\ Do("partscal", v, <<k - 1, a>>, [i \in 1..N |-> IF i > Off(k) /\ i <= Off(k) + Parts[k] THEN DMul(a, x[v][i]) ELSE x[v][i]])
PartGet(v, k) == /\ Len(Parts) > 1 /\ x[v] # <<>> /\ Log("partget", <<v, k - 1>>, <<SubSeq(x[v], Off(k) + 1, Off(k) + Parts[k])>> \o All(x)) /\ UNCHANGED x
\* subranges of undivided vectors
ToPos(v, p, n, s) == /\ Len(Parts) = 1 /\ x[v] # <<>> /\ p + n <= N
                     /\ Do("topos", v, <<p, n, s>>, Put(x[v], p, StartOf(s, n)))
FromPos(v, p, w) == /\ Len(Parts) = 1 /\ x[w] # <<>> /\ p < N      \* a vector of dimension N-p receives the end of w
                    /\ Log("frompos", <<w, p>>, <<SubSeq(x[w], p + 1, N)>> \o All(x)) /\ UNCHANGED x

FinStarts == {s \in Starts : \A i \in 1..N : DFinite(StartOf(s, N)[i])}
NZC == {c \in Coefs : ~DEq(c, "0")}
R(S) == IF Mode = "walk" THEN {RandomElement(S)} ELSE S     \* random walks draw one value
Change(v) ==
  \/ \E s \in R(Starts) : Start(v, s)
  \/ \E w \in R(V) : Copy(v, w)
  \/ \E a \in R(Coefs) : Scal(v, a) \/ AddS(v, a)
  \/ \E a \in R(Coefs), w \in R(V) : Axpy(v, a, w)
  \/ \E op \in Unaries : Unary(op, v)
  \/ \E op \in Binaries, w \in R(V) : Binary(op, v, w)
  \/ \E a \in R(Coefs), b \in R(Coefs), cc \in R(Coefs), w1 \in R(V \ {v}), w2 \in R(V \ {v}) : Add2(v, a, w1, b, w2, cc)
  \/ \E a, cc \in Coefs, w \in V \ {v} : Add1(v, a, w, cc)
  \/ \E a \in R(NZC), cc \in R(Coefs), z \in R(V), s \in R(V) : Quot(v, a, z, s, cc)
  \/ New(v)
  \/ \E w \in R(V) : NewCopy(v, w)
  \/ \E k \in R(1..Len(Parts)) : \/ \E s \in R(FinStarts) : Part(v, "partset", k, s) \/ Part(v, "partput", k, s)
                              \/ \E a \in R(Coefs) : PartScal(v, k, a)
  \/ \E p \in R(0..(N - 1)), n \in R(1..N), s \in R(FinStarts) : ToPos(v, p, n, s)

Init == x = [v \in V |-> <<>>] /\ ph = 0 /\ h = <<>>
One == \/ /\ ph < 3 /\ \E s \in Starts : Start(ph + 1, s) /\ ph' = ph + 1
       \/ /\ ph = 3 /\ ph' = 5 /\ AskAll(1)
       \/ /\ ph = 3 /\ ph' = 4 /\ AskAll(2)
       \/ /\ ph = 4 /\ ph' = 5 /\ New(1)                \* a target without contents
       \/ /\ ph \in {3, 5} /\ ph' = 6 /\ Change(1)
       \/ /\ ph = 6 /\ ph' = 7 /\ x[1] # <<>> /\ AskAll(1)
Walk == /\ Len(h) < MaxLen /\ UNCHANGED ph
        /\ IF Len(h) < 3 THEN \E s \in R(FinStarts) : Start(Len(h) + 1, s)
           ELSE \E v \in R(V) : IF x[v] # <<>> /\ ~Small(v) /\ Fin(v) THEN \E s \in R(FinStarts) : Start(v, s)
                ELSE \/ Change(v) \/ Valid(v) \/ \E q \in Queries, w \in R(V) : Ask(q, v, w)
                     \/ AskAll(v) /\ Fin(v)
                     \/ \E k \in R(1..Len(Parts)) : PartGet(v, k)
                     \/ \E p \in R(0..(N - 1)) : FromPos(v, p, v)
Next == IF Mode = "one" THEN One ELSE Walk
Spec == Init /\ [][Next]_vars
Canon == h
EmitT == IF ph' = 7 THEN PrintT(ToJson(h')) ELSE TRUE
EmitH == (Len(h) >= MaxLen) => PrintT(ToJson(h))
TypeOK == \A v \in V : x[v] = <<>> \/ Len(x[v]) = N
=============================================================================
