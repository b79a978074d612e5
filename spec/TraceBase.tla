------------------------------ MODULE TraceBase ------------------------------
(* Recorded executions: one JSON object (episode) per line, each carrying    *)
(* its inputs and the sequence `events` observed on the real code.  A trace  *)
(* specification consumes the events one by one; an event which is not a     *)
(* step of the specification leaves the behaviour stuck, and TLC reports the *)
(* stuck state (deadlock) with episode and event number.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Eps == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ep, l
E == Eps[ep]
Ev == E.events[l]
More == l <= Len(E.events)
Is(op) == More /\ Ev.op = op
Consume == l' = l + 1 /\ ep' = ep
(* evaluate as a predicate: no branching over disjuncts inside p *)
Holds(p) == p = TRUE
Finished == l > Len(E.events)
TBInit == ep \in 1 .. Len(Eps) /\ l = 1
=============================================================================
