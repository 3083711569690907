------------------------------- MODULE Solves -------------------------------
(* Histories of solves on IpoptApplication objects (property C21).          *)
(* A user attaches problems, changes their data and the options, optimizes  *)
(* and re-optimizes, with solves that are stopped, whose evaluations fail   *)
(* or whose setup is refused in between.  What a solve may depend on is its *)
(* key: the problem with its current data, the current options, the options *)
(* that chose the components of the algorithm when it was last built, and   *)
(* disturbances from outside.  Nothing else of the history is in the key.   *)
(* The generated histories carry the key of every solve; SolvesTrace.tla    *)
(* demands that solves with equal keys take the same course.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Apps, Probs, Kinds, Dist, MaxSolves, MaxPrep, SameOpt
VARIABLES app, prep, h
vars == <<app, prep, h>>

Fields == {"x0", "y0", "bnd", "obj"}
None == <<>>
NoProb == [p |-> 0, data |-> [f \in Fields |-> <<0>>]]
NewApp == [opts |-> [plain |-> 0, struct |-> 0, warm |-> 0, same |-> 0], prob |-> NoProb, inst |-> 0,
           alg |-> None,       \* <<structural options it was built with>>
           anl |-> 0,          \* the problem object it was built for
           scal |-> None,      \* the data and options its problem structure and scaling were determined with
           last |-> <<>>]        \* key of the last solve whose result was delivered to the current problem object
Init == app = [a \in Apps |-> NewApp] /\ prep = 0 /\ h = <<>>
Solves == Len(SelectSeq(h, LAMBDA o : o.op = "solve"))
Log(o) == h' = Append(h, o)
Upd(a, r) == app' = [app EXCEPT ![a] = r]

\* a new problem object
Load(a, p) == /\ Upd(a, [app[a] EXCEPT !.prob = [NoProb EXCEPT !.p = p], !.inst = @ + 1, !.last = <<>>])
              /\ Log([op |-> "load", a |-> a, p |-> p]) /\ prep' = prep + 1
Change(a, f) == /\ app[a].prob.p # 0
                /\ LET v == IF app[a].prob.data[f] = <<1>> THEN <<0>> ELSE <<1>> IN
                     /\ Upd(a, [app[a] EXCEPT !.prob.data[f] = v])
                     /\ Log([op |-> "data", a |-> a, f |-> f, v |-> v[1]]) /\ prep' = prep + 1
\* the result of the last solve becomes the starting point
FromLast(a) == /\ app[a].last # <<>> /\ Upd(a, [app[a] EXCEPT !.prob.data["x0"] = <<1>> \o app[a].last, !.prob.data["y0"] = <<1>> \o app[a].last, !.last = <<>>])
               /\ Log([op |-> "from_last", a |-> a, k |-> ToString(app[a].last[1])]) /\ prep' = prep + 1
Option(a, o) == /\ LET v == 1 - app[a].opts[o] IN Upd(a, [app[a] EXCEPT !.opts[o] = v]) /\ Log([op |-> "opt", a |-> a, o |-> o, v |-> v])
                /\ prep' = prep + 1

Key(s, how, d, alg, scal) == [prob |-> s.prob, opts |-> s.opts, alg |-> alg, scal |-> scal, dist |-> d]
Delivered(d) == d \in {"none", "stop"}
Solve(a, how, d) ==
  LET s == app[a]
      refused == how = "reopt" /\ (s.alg = None \/ s.anl # s.inst)
      built == d # "badbuild"
      alg == IF how = "opt" THEN <<s.opts.struct>> ELSE s.alg
      \* with warm_start_same_structure the structure of the problem and the scaling are kept
      keep == s.opts.same = 1
      scal == IF keep THEN (IF how = "opt" THEN None ELSE s.scal) ELSE <<s.prob, s.opts.plain>>
      key == Key(s, how, d, alg, IF keep THEN scal ELSE <<0>>)
  IN /\ s.prob.p # 0
     /\ IF d = "badbuild" THEN how = "opt" ELSE TRUE
     /\ IF refused THEN d = "none" ELSE TRUE
     /\ Upd(a, IF refused THEN s
               ELSE [s EXCEPT !.alg = IF built THEN alg ELSE None, !.anl = IF built THEN s.inst ELSE 0,
                              !.scal = IF d \in {"badbuild", "badsetup", "badopt"} THEN None ELSE scal,
                              !.last = IF Delivered(d) /\ ~(keep /\ scal = None) THEN <<key>> ELSE <<>>])
     /\ Log([op |-> "solve", a |-> a, how |-> how, d |-> d, refused |-> refused, key |-> ToString(key), p |-> s.prob.p, data |-> s.prob.data,
             opts |-> s.opts, fresh |-> ~keep /\ ~refused /\ alg = <<s.opts.struct>>])
     /\ prep' = 0

Next == \/ /\ prep < MaxPrep /\ Solves < MaxSolves
           /\ \E a \in Apps :
                \/ \E p \in Probs : Load(a, p)
                \/ \E f \in Fields : Change(a, f)
                \/ FromLast(a)
                \/ \E o \in {"plain", "struct", "warm"} \cup (IF SameOpt THEN {"same"} ELSE {}) : Option(a, o)
        \/ /\ Solves < MaxSolves /\ \E a \in Apps, how \in Kinds, d \in Dist : Solve(a, how, d)
Spec == Init /\ [][Next]_vars

\* sanity of the design: a solve that is not refused on a fresh application is a solve with current components
KeyFresh == \A i \in 1..Len(h) : h[i].op = "solve" => (h[i].how = "opt" => ~h[i].refused)
\* the key of a solve does not mention the application or the problem object
Canon == <<[a \in Apps |-> [opts |-> app[a].opts, p |-> app[a].prob.p, data |-> [f \in Fields |-> IF Len(app[a].prob.data[f]) = 2 THEN <<2>> ELSE app[a].prob.data[f]],
                            alg |-> app[a].alg, fit |-> app[a].anl = app[a].inst, scal |-> app[a].scal, last |-> app[a].last # <<>>]], prep>>
EmitT == IF h'[Len(h')].op = "solve" THEN PrintT(ToJson(h')) ELSE TRUE
EmitH == (Solves = MaxSolves) => PrintT(ToJson(h))
=============================================================================
