------------------------------- MODULE TDModel -------------------------------
(* Label-setting search with arrival times as keys on every small network of *)
(* first-in-first-out arcs is exact for every departure: the arrival settled *)
(* for the target is the smallest over all walks (which wait or do not wait  *)
(* at nodes), and settling never has to be repeated.                         *)
EXTENDS Graphs, TLC
CONSTANTS N, D, TTS, MAXA
V == 0 .. N - 1
Pairs == {p \in V \X V : p[1] # p[2]}
Prof == {g \in [0 .. D - 1 -> TTS] : (\A t \in 0 .. D - 2 : g[t] <= g[t + 1] + 1) /\ g[D - 1] <= g[0] + 1}
NoArc == [t \in 0 .. D - 1 |-> INF]
VARIABLES w, arr, done, walk, now
vars == <<w, arr, done, walk, now>>
(* walk/now: an arbitrary traveller starting at 0 at time dep, who may wait  *)
Init == /\ \E A \in {X \in SUBSET Pairs : Cardinality(X) <= MAXA /\ \E p \in X : p[1] = 0} : \E g \in [A -> Prof] :
             w = [p \in Pairs |-> IF p \in A THEN g[p] ELSE NoArc]
        /\ now \in 0 .. D - 1
        /\ arr = [v \in V |-> IF v = 0 THEN now ELSE INF]
        /\ done = {} /\ walk = 0
Open == {v \in V : arr[v] < INF /\ v \notin done}
TT(u, v, t) == w[<<u, v>>][t % D]
Settle(u) ==
  /\ u \in Open /\ \A v \in Open : arr[u] <= arr[v]
  /\ done' = done \cup {u}
  /\ arr' = [v \in V |-> IF v = u \/ w[<<u, v>>] = NoArc THEN arr[v] ELSE Min2(arr[v], arr[u] + TT(u, v, arr[u]))]
  /\ UNCHANGED <<w, walk, now>>
(* once the search has finished, the traveller sets off *)
Move == /\ Open = {}
        /\ \/ now' = now + 1 /\ walk' = walk
           \/ \E v \in V \ {walk} : w[<<walk, v>>] # NoArc /\ walk' = v /\ now' = now + TT(walk, v, now)
        /\ now' <= 2 * D
        /\ UNCHANGED <<w, arr, done>>
Next == (\E u \in V : Settle(u)) \/ Move
Spec == Init /\ [][Next]_vars
LabelSetting == \A u \in done, v \in Open : arr[u] <= arr[v]
(* no traveller, waiting or not, is anywhere earlier than the search says *)
Earliest == Open = {} => arr[walk] <= now
=============================================================================
