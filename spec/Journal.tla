------------------------------ MODULE Journal ------------------------------
(* Message distribution: a journalist owns an ordered list of journals with  *)
(* unique names; each journal has a level per category.  A message reaches   *)
(* the journals in the list whose level for its category is high enough.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Names, Cats, UserCats, Levels, MaxLen
VARIABLES list,   \* slots registered, in order
          name,   \* slot -> name or ""
          lev,    \* slot -> category -> level
          h
vars == <<list, name, lev, h>>
AllCats == Cats \cup UserCats
Range(q) == {q[i] : i \in DOMAIN q}
Init == list = <<>> /\ name = [s \in Slots |-> ""] /\ lev = [s \in Slots |-> [c \in AllCats |-> -2]] /\ h = <<>>
Log(op, a, r) == h' = Append(h, [op |-> op, a |-> a, r |-> r])
Listed(n) == {i \in DOMAIN list : name[list[i]] = n}
ByName(n) == IF Listed(n) = {} THEN 0 ELSE list[CHOOSE i \in Listed(n) : TRUE]
Accept(s, c, l) == lev[s][c] >= l
Sinks(c, l) == SelectSeq(list, LAMBDA s : Accept(s, c, l))

Create(s, n, l) == /\ s \notin Range(list)
                   /\ name' = [name EXCEPT ![s] = n] /\ lev' = [lev EXCEPT ![s] = [c \in AllCats |-> l]]
                   /\ Log("create", <<s, n, l>>, 0) /\ UNCHANGED list
Add(s) == /\ name[s] # "" /\ LET ok == Listed(name[s]) = {}
             IN list' = (IF ok THEN Append(list, s) ELSE list) /\ Log("add", <<s>>, IF ok THEN 1 ELSE 0)
          /\ UNCHANGED <<name, lev>>
AddFile(s, n, l) == /\ s \notin Range(list) /\ LET ok == Listed(n) = {}
                       IN /\ list' = (IF ok THEN Append(list, s) ELSE list)
                          /\ name' = [name EXCEPT ![s] = IF ok THEN n ELSE ""]
                          /\ lev' = [lev EXCEPT ![s] = [c \in AllCats |-> l]]
                          /\ Log("addfile", <<s, n, l>>, IF ok THEN 1 ELSE 0)
Get(n) == Log("get", <<n>>, ByName(n)) /\ UNCHANGED <<list, name, lev>>
SetLevel(s, c, l) == /\ name[s] # "" /\ lev' = [lev EXCEPT ![s][c] = l] /\ Log("setlevel", <<s, c, l>>, 0) /\ UNCHANGED <<list, name>>
\* user-defined categories keep their level
SetAll(s, l) == /\ name[s] # "" /\ lev' = [lev EXCEPT ![s] = [c \in AllCats |-> IF c \in Cats THEN l ELSE lev[s][c]]]
                /\ Log("setall", <<s, l>>, 0) /\ UNCHANGED <<list, name>>
DeleteAll == list' = <<>> /\ Log("delall", <<>>, 0) /\ UNCHANGED <<name, lev>>
Msg(k, c, l) == Log(k, <<c, l>>, Sinks(c, l)) /\ UNCHANGED <<list, name, lev>>
Produce(c, l) == Log("produce", <<c, l>>, IF Sinks(c, l) = <<>> THEN 0 ELSE 1) /\ UNCHANGED <<list, name, lev>>
MsgLevels == Levels \ {-2}
Next == Len(h) < MaxLen /\
  \/ \E s \in Slots, n \in Names, l \in Levels : Create(s, n, l) \/ AddFile(s, n, l)
  \/ \E s \in Slots : Add(s)
  \/ \E n \in Names : Get(n)
  \/ \E s \in Slots, c \in AllCats, l \in Levels : SetLevel(s, c, l)
  \/ \E s \in Slots, l \in Levels : SetAll(s, l)
  \/ DeleteAll
  \/ \E k \in {"printf", "indented", "overlines"}, c \in AllCats, l \in MsgLevels : Msg(k, c, l)
  \/ \E c \in AllCats, l \in MsgLevels : Produce(c, l)
Spec == Init /\ [][Next]_vars
Canon == <<list, name, lev>>
UniqueNames == \A i, j \in DOMAIN list : name[list[i]] = name[list[j]] => i = j
EmitT == PrintT(ToJson(h'))
EmitH == Len(h) = MaxLen => PrintT(ToJson(h))
=============================================================================
