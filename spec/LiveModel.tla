------------------------------ MODULE LiveModel ------------------------------
(* Live traffic overlays on a first-in-first-out prediction, for every small *)
(* periodic profile, report and expiry: both combinations never let a later  *)
(* departure arrive earlier, follow the prediction once the report has       *)
(* worn off, and the pessimistic one never undercuts the prediction.         *)
(* Travelling: with first-in-first-out arcs waiting never helps, so a label  *)
(* setting search is exact (checked on a two arc chain with both orders).    *)
EXTENDS Graphs, TLC
CONSTANTS D, MAXT
VARIABLES f, live, soon
vars == <<f, live, soon>>
Fifo(g, a, b) == \A t \in a .. b - 1 : t + g[t] <= t + 1 + g[t + 1]
Init == /\ f \in [0 .. D - 1 -> 0 .. MAXT]
        /\ \A t \in 0 .. D - 2 : f[t] <= f[t + 1] + 1
        /\ f[D - 1] <= f[0] + 1
        /\ live \in -1 .. MAXT + 1 /\ soon \in 0 .. D - 1
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pred(t) == f[t % D]
H == 2 * D + MAXT
(* the definitions of TD.tla *)
LiveValue(t) ==
  LET p == Pred(t) ps == Pred(soon) IN
  IF live = -1 THEN p
  ELSE IF t < soon THEN live
  ELSE IF ps < live THEN Max2(Max2(live + soon - t, 0), p)
  ELSE Min2(live + (t - soon), p)
PessValue(t) ==
  LET p == Pred(t) IN IF live = -1 \/ t >= soon THEN p ELSE Max2(p, Min2(live, Pred(soon) + (soon - t)))
LiveFifo == \A t \in 0 .. H - 1 : t + LiveValue(t) <= t + 1 + LiveValue(t + 1)
PessFifo == \A t \in 0 .. H - 1 : t + PessValue(t) <= t + 1 + PessValue(t + 1)
ReturnsLive == \A t \in 0 .. H : t >= soon + MAXT + 1 => LiveValue(t) = Pred(t)
ReturnsPess == \A t \in 0 .. H : t >= soon => PessValue(t) = Pred(t)
NeverBelow == \A t \in 0 .. H : PessValue(t) >= Pred(t)
LiveBetween == \A t \in soon .. H : LiveValue(t) <= Max2(live, Pred(t)) /\ LiveValue(t) >= (IF live = -1 THEN Pred(t) ELSE Min2(live, Pred(t)))
=============================================================================
