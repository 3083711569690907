---------------------------- MODULE SolvesTrace ----------------------------
(* Solves recorded from histories of Solves.tla: the course of a solve (all *)
(* that the user sees: callbacks, iterates, result, statistics; here its    *)
(* digest) is a function of the key that Solves.tla computed for it.        *)
EXTENDS TraceKit
VARIABLES t, i, s
Check(c, m, e) ==
  << <<"C21.refused", e.refused = e.expect>>,
     <<"C21.course", IF e.expect THEN TRUE ELSE IF e.key \in DOMAIN m THEN m[e.key] = e.course ELSE TRUE>> >>
Step(c, m, e) == IF e.expect \/ e.key \in DOMAIN m THEN m ELSE [k \in DOMAIN m \cup {e.key} |-> IF k = e.key THEN e.course ELSE m[k]]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ s = [k \in {} |-> ""]
Next == /\ i < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i + 1] c == Traces[t].cfg IN
             /\ Report(t, i + 1, Check(c, s, e))
             /\ s' = Step(c, s, e)
        /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_<<t, i, s>>
=============================================================================
