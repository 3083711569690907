------------------------------- MODULE Cache -------------------------------
(* Result caches, change tags and observers.  Objects live in slots; every  *)
(* creation and every change gives the object a fresh version.  An entry of *)
(* the cache is valid as long as all its input versions are still current.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,      \* storage slots for objects (recycled after destruction)
          Watchers,   \* observers
          Caps,       \* capacities, negative: unbounded
          MaxEntries, \* bound on stored entries (state constraint)
          MaxLen,     \* bound on histories (simulation)
          Scalars,    \* scalar inputs
          Ops         \* groups of operations: cache, watch, tag

VARIABLES ver,        \* slot -> current version, 0: no object
          next,       \* next version
          entries,    \* most recent first: [deps, sc, res]
          cap,
          watch,      \* watcher -> set of slots it is attached to
          alive,      \* watcher exists
          mem,        \* slot -> version remembered by the user (tag)
          h           \* history with expected observations
vars == <<ver, next, entries, cap, watch, alive, mem, h>>

Null == 0
Deps == {<<s>> : s \in Slots \cup {Null}} \cup {<<s, t>> : s, t \in Slots \cup {Null}}
VerOf(d) == [i \in DOMAIN d |-> IF d[i] = Null THEN 0 ELSE ver[d[i]]]
Current == {0} \cup {ver[s] : s \in {t \in Slots : ver[t] # 0}}
IsValid(e) == \A i \in DOMAIN e.deps : e.deps[i] \in Current
Prune(es) == SelectSeq(es, IsValid)
Usable(d) == \A i \in DOMAIN d : IF d[i] = Null THEN TRUE ELSE ver[d[i]] # 0
RECURSIVE First(_, _, _)
First(es, d, sc) == IF es = <<>> THEN 0 ELSE IF es[1].deps = d /\ es[1].sc = sc THEN 1
                    ELSE LET r == First(Tail(es), d, sc) IN IF r = 0 THEN 0 ELSE r + 1
Without(es, i) == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
SetToSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i] < q[j]

Init == /\ ver = [s \in Slots |-> 0] /\ next = 1 /\ entries = <<>> /\ cap \in Caps
        /\ watch = [w \in Watchers |-> {}] /\ alive = [w \in Watchers |-> TRUE] /\ mem = [s \in Slots |-> 0]
        /\ h = <<[op |-> "new", a |-> <<cap>>, r |-> <<>>]>>

Log(op, a, r) == h' = Append(h, [op |-> op, a |-> a, r |-> r])
Notified(s) == SetToSeq({w \in Watchers : alive[w] /\ s \in watch[w]})

Create(s) == /\ ver[s] = 0 /\ ver' = [ver EXCEPT ![s] = next] /\ next' = next + 1 /\ Log("create", <<s>>, <<>>)
             /\ UNCHANGED <<entries, cap, watch, alive, mem>>
Change(s) == /\ ver[s] # 0 /\ ver' = [ver EXCEPT ![s] = next] /\ next' = next + 1 /\ Log("change", <<s>>, Notified(s))
             /\ UNCHANGED <<entries, cap, watch, alive, mem>>
Destroy(s) == /\ ver[s] # 0 /\ ver' = [ver EXCEPT ![s] = 0] /\ Log("destroy", <<s>>, Notified(s))
              /\ watch' = [w \in Watchers |-> watch[w] \ {s}] /\ UNCHANGED <<next, entries, cap, alive, mem>>

Add(d, sc) == /\ Usable(d)
              /\ LET es == <<[deps |-> VerOf(d), sc |-> sc, res |-> Len(h)]>> \o Prune(entries)
                 IN entries' = IF cap >= 0 /\ Len(es) > cap THEN SubSeq(es, 1, cap) ELSE es
              /\ Len(Prune(entries)) < MaxEntries
              /\ Log("add", d \o <<-1>> \o sc, <<Len(h)>>) /\ UNCHANGED <<ver, next, cap, watch, alive, mem>>
Get(d, sc) == /\ Usable(d)
              /\ LET i == First(Prune(entries), VerOf(d), sc)
                 IN Log("get", d \o <<-1>> \o sc, IF i = 0 THEN <<>> ELSE <<Prune(entries)[i].res>>)
              /\ UNCHANGED <<ver, next, entries, cap, watch, alive, mem>>
Invalidate(d, sc) == /\ Usable(d)
                     /\ LET es == Prune(entries)  i == First(es, VerOf(d), sc)
                        IN /\ Log("invalidate", d \o <<-1>> \o sc, IF i = 0 THEN <<0>> ELSE <<1>>)
                           /\ entries' = IF i = 0 THEN es ELSE Without(es, i)
                     /\ UNCHANGED <<ver, next, cap, watch, alive, mem>>
Clear == /\ entries' = <<>> /\ Log("clear", <<>>, <<>>) /\ UNCHANGED <<ver, next, cap, watch, alive, mem>>
ClearTo(n) == /\ entries' = <<>> /\ cap' = n /\ Log("clear", <<n>>, <<>>) /\ UNCHANGED <<ver, next, watch, alive, mem>>

Attach(w, s) == /\ alive[w] /\ ver[s] # 0 /\ s \notin watch[w] /\ watch' = [watch EXCEPT ![w] = @ \cup {s}]
                /\ Log("attach", <<w, s>>, <<>>) /\ UNCHANGED <<ver, next, entries, cap, alive, mem>>
Detach(w, s) == /\ alive[w] /\ s \in watch[w] /\ watch' = [watch EXCEPT ![w] = @ \ {s}]
                /\ Log("detach", <<w, s>>, <<>>) /\ UNCHANGED <<ver, next, entries, cap, alive, mem>>
Kill(w) == /\ alive[w] /\ watch' = [watch EXCEPT ![w] = {}] /\ alive' = [alive EXCEPT ![w] = FALSE]
           /\ Log("kill", <<w>>, <<>>) /\ UNCHANGED <<ver, next, entries, cap, mem>>
Revive(w) == /\ ~alive[w] /\ alive' = [alive EXCEPT ![w] = TRUE] /\ Log("revive", <<w>>, <<>>)
             /\ UNCHANGED <<ver, next, entries, cap, watch, mem>>
Remember(s) == /\ ver[s] # 0 /\ mem' = [mem EXCEPT ![s] = ver[s]] /\ Log("tag", <<s>>, <<>>)
               /\ UNCHANGED <<ver, next, entries, cap, watch, alive>>
Ask(s) == /\ ver[s] # 0 /\ mem[s] # 0 /\ Log("changed", <<s>>, IF mem[s] = ver[s] THEN <<0>> ELSE <<1>>)
          /\ UNCHANGED <<ver, next, entries, cap, watch, alive, mem>>
Renew == cap' \in Caps /\ entries' = <<>> /\ Log("new", <<cap'>>, <<>>) /\ UNCHANGED <<ver, next, watch, alive, mem>>

Next == /\ Len(h) < MaxLen
        /\ \/ \E s \in Slots : Create(s) \/ Change(s) \/ Destroy(s)
           \/ "tag" \in Ops /\ \E s \in Slots : Remember(s) \/ Ask(s)
           \/ "cache" \in Ops /\ \E d \in Deps, sc \in Scalars : Add(d, sc)
           \/ "cache" \in Ops /\ \E d \in Deps, sc \in Scalars : Get(d, sc)
           \/ "cache" \in Ops /\ \E d \in Deps, sc \in Scalars : Invalidate(d, sc)
           \/ "cache" \in Ops /\ (Clear \/ (\E n \in Caps : ClearTo(n)) \/ Renew)
           \/ "watch" \in Ops /\ \E w \in Watchers, s \in Slots : Attach(w, s) \/ Detach(w, s)
           \/ "watch" \in Ops /\ \E w \in Watchers : Kill(w) \/ Revive(w)
Spec == Init /\ [][Next]_vars

\* state without the names of versions and results; invalid entries count as absent
SlotOf(v) == IF v = 0 THEN 0 ELSE CHOOSE s \in Slots : ver[s] = v
Canon == <<[s \in Slots |-> ver[s] # 0], [i \in 1..Len(Prune(entries)) |->
            [d |-> [j \in DOMAIN Prune(entries)[i].deps |-> SlotOf(Prune(entries)[i].deps[j])], s |-> Prune(entries)[i].sc]],
          Len(entries) - Len(Prune(entries)) > 0, cap, watch, alive, [s \in Slots |-> IF mem[s] = 0 THEN 0 ELSE IF mem[s] = ver[s] THEN 1 ELSE 2]>>

\* design: capacity is respected, a lookup that succeeds returns a result whose inputs are unchanged
CapOk == cap >= 0 => Len(entries) <= cap
Sound == \A d \in Deps, sc \in Scalars : Usable(d) =>
           LET i == First(Prune(entries), VerOf(d), sc) IN i # 0 => Prune(entries)[i].deps = VerOf(d)
EmitT == PrintT(ToJson(h'))                      \* every transition of the abstract state graph
EmitH == Len(h) = MaxLen => PrintT(ToJson(h))    \* simulation
=============================================================================
