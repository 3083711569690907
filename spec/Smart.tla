------------------------------- MODULE Smart -------------------------------
(* Counted pointers: variables (existing only while in scope) and the        *)
(* "next" member of every object.  An object dies at the moment its count    *)
(* drops to zero; its own member is released after it.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ptrs, Objs, Modes, MaxLen
VARIABLES val,    \* pointer -> object, 0: null, -1: variable not in scope
          nxt,    \* object -> object or 0
          live,   \* set of live objects
          h
vars == <<val, nxt, live, h>>

Count(v, n, l, o) == Cardinality({p \in Ptrs : v[p] = o}) + Cardinality({q \in l : n[q] = o})
\* objects that die, in order, when the count of o may have dropped to zero
RECURSIVE Dying(_, _, _, _)
Dying(v, n, l, o) == IF o <= 0 \/ o \notin l THEN <<>>
                     ELSE IF Count(v, n, l, o) > 0 THEN <<>>
                     ELSE <<o>> \o Dying(v, n, l \ {o}, n[o])
Range(q) == {q[i] : i \in DOMAIN q}
Counts(v, n, l) == [o \in Objs |-> IF o \in l THEN Count(v, n, l, o) ELSE -1]

\* commit new contents; `old` is the object whose reference was given up
Commit(op, a, v, n, l, old) ==
  LET d == Dying(v, n, l, old)  l2 == l \ Range(d)
      n2 == [o \in Objs |-> IF o \in l2 THEN n[o] ELSE 0]
  IN /\ val' = v /\ nxt' = n2 /\ live' = l2
     /\ h' = Append(h, [op |-> op, a |-> a, r |-> [dead |-> d, cnt |-> Counts(v, n2, l2)]])

Init == val = [p \in Ptrs |-> -1] /\ nxt = [o \in Objs |-> 0] /\ live = {} /\ h = <<>>

In(p) == val[p] # -1
Fresh == CHOOSE o \in Objs \ live : \A q \in Objs \ live : o <= q
Enter(p) == ~In(p) /\ Commit("enter", <<p>>, [val EXCEPT ![p] = 0], nxt, live, 0)
EnterCopy(p, q, m) == ~In(p) /\ In(q) /\ Commit("entercopy", <<p, q, m>>, [val EXCEPT ![p] = val[q]], nxt, live, 0)
EnterNew(p) == ~In(p) /\ live # Objs /\
               Commit("enternew", <<p, Fresh>>, [val EXCEPT ![p] = Fresh], nxt, live \cup {Fresh}, 0)
Leave(p) == In(p) /\ Commit("leave", <<p>>, [val EXCEPT ![p] = -1], nxt, live, val[p])
New(p, m) == In(p) /\ live # Objs /\
             Commit("new", <<p, Fresh, m>>, [val EXCEPT ![p] = Fresh], nxt, live \cup {Fresh}, val[p])
SetNull(p, m) == In(p) /\ Commit("null", <<p, m>>, [val EXCEPT ![p] = 0], nxt, live, val[p])
Assign(p, q, m) == In(p) /\ In(q) /\ Commit("assign", <<p, q, m>>, [val EXCEPT ![p] = val[q]], nxt, live, IF val[p] = val[q] THEN 0 ELSE val[p])
Follow(p, q, m) == In(p) /\ In(q) /\ val[q] > 0 /\
                   Commit("follow", <<p, q, m>>, [val EXCEPT ![p] = nxt[val[q]]], nxt, live, val[p])
Link(p, q, m) == In(p) /\ In(q) /\ val[p] > 0 /\
                 Commit("link", <<p, q, m>>, val, [nxt EXCEPT ![val[p]] = val[q]], live, nxt[val[p]])
Skip(p, m) == In(p) /\ val[p] > 0 /\ nxt[val[p]] > 0 /\     \* p->next = p->next->next
              Commit("skip", <<p, m>>, val, [nxt EXCEPT ![val[p]] = nxt[nxt[val[p]]]], live, nxt[val[p]])
Eq(p, q) == In(p) /\ In(q) /\ UNCHANGED <<val, nxt, live>> /\
            h' = Append(h, [op |-> "eq", a |-> <<p, q>>, r |-> <<val[p] = val[q], val[p] # 0>>])
Pass(p, m) == In(p) /\ Commit("pass", <<p, m>>, val, nxt, live, 0)   \* temporary copies come and go

Next == Len(h) < MaxLen /\
  \/ \E p \in Ptrs : Enter(p) \/ EnterNew(p) \/ Leave(p)
  \/ \E p \in Ptrs, m \in Modes : New(p, m) \/ SetNull(p, m) \/ Skip(p, m) \/ Pass(p, m)
  \/ \E p, q \in Ptrs, m \in Modes : EnterCopy(p, q, m) \/ Assign(p, q, m) \/ Follow(p, q, m) \/ Link(p, q, m)
  \/ \E p, q \in Ptrs : Eq(p, q)
Spec == Init /\ [][Next]_vars
Canon == <<val, nxt, live>>
\* what is referenced is alive, and what is alive was not left without references
Safe == /\ \A p \in Ptrs : val[p] > 0 => val[p] \in live
        /\ \A o \in live : nxt[o] > 0 => nxt[o] \in live
NoOrphan == \A o \in live : Count(val, nxt, live, o) > 0
EmitT == PrintT(ToJson(h'))
EmitH == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
