------------------------------- MODULE Filter -------------------------------
(* The filter: a set of entries, each a tuple of coordinates together with  *)
(* the iteration at which it was added.  A tuple is acceptable iff it is at *)
(* least as good as every entry in at least one coordinate; adding a tuple  *)
(* removes exactly the entries it dominates; clearing empties the filter.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt

CONSTANTS Dim,        \* number of coordinates
          Vals,       \* values of the coordinates
          MaxEntries, \* bound on the entries (state constraint)
          Sample,     \* simulation: number of tuples tried in each step (0: all)
          MaxLen      \* bound on histories (simulation)
VARIABLES es,         \* set of [v, k]: tuple and number of the operation that added it
          added,      \* every tuple added since the last clearing
          h
vars == <<es, added, h>>

Tuples == [1..Dim -> Vals]
Some == IF Sample = 0 THEN Tuples ELSE RandomSubset(Sample, Tuples)
Better(p, q) == \E k \in 1..Dim : p[k] <= q[k]
Dominates(p, q) == \A k \in 1..Dim : p[k] <= q[k]
Acceptable(p) == \A e \in es : Better(p, e.v)
Sorted(S) == SetToSortSeq(S, LAMBDA e, f : e.k < f.k)
Dump(S) == LET q == Sorted(S) IN [i \in 1..Len(q) |-> q[i].v \o <<q[i].k>>]

Init == es = {} /\ added = {} /\ h = <<[op |-> "new", a |-> <<Dim>>, r |-> <<>>]>>
Log(op, a, r) == h' = Append(h, [op |-> op, a |-> a, r |-> r])

Ask(p) == /\ Log("ask", p, <<IF Acceptable(p) THEN 1 ELSE 0>>) /\ UNCHANGED <<es, added>>
Add(p) == /\ es' = {e \in es : ~Dominates(p, e.v)} \cup {[v |-> p, k |-> Len(h)]}
          /\ Cardinality(es') <= MaxEntries
          /\ added' = added \cup {p}
          /\ Log("add", p, Dump(es'))
Clear == es' = {} /\ added' = {} /\ Log("clear", <<>>, <<>>)

Next == Len(h) < MaxLen /\ ((\E p \in Some : Ask(p) \/ Add(p)) \/ Clear)
Spec == Init /\ [][Next]_vars

\* the order in which the entries were added does not matter to their meaning
Canon == {e.v : e \in es}

\* design: dropping dominated entries never changes what is acceptable, and no entry dominates another one
NoLoss == \A p \in Tuples : Acceptable(p) <=> \A q \in added : Better(p, q)
Minimal == \A e, f \in es : e.k > f.k => ~Dominates(e.v, f.v)
EmitT == PrintT(ToJson(h'))
EmitH == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
