------------------------------ MODULE TraceKit ------------------------------
(* Common part of the trace-validation specifications.  The file named by   *)
(* the environment variable TRACES holds one recorded run per line:         *)
(* {"cfg": {...}, "ev": [{...}, ...]}.  A monitor specification defines     *)
(*   Start(cfg)       its initial state                                     *)
(*   Check(cfg, s, e) a sequence of <<clause name, holds>> for event e      *)
(*   Step(cfg, s, e)  its state after the event                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Doubles
Traces == ndJsonDeserialize(IOEnv.TRACES)
Failed(cl) == {k \in 1..Len(cl) : ~cl[k][2]}
Report(t, i, cl) == \A k \in Failed(cl) : PrintT(ToJson([t |-> t, i |-> i, c |-> cl[k][1]])) = TRUE
Has(e, f) == f \in DOMAIN e
Max2(a, b) == IF a >= b THEN a ELSE b
Imp(a, b) == IF a THEN b ELSE TRUE
=============================================================================
