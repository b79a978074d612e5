------------------------------ MODULE TurnModel ------------------------------
(* Turn-aware walks on every small graph and turn table: a walk is a list of *)
(* arcs with an allowed turn between consecutive ones and costs the arcs     *)
(* left behind plus the turns.  Every walk costs at least the distance in    *)
(* the line graph (and that distance is the cost of some walk), which is at  *)
(* least the distance between the tails in the node graph.                   *)
EXTENDS Graphs, TLC
CONSTANTS N, WS, TC, NA
V == 0 .. N - 1
VARIABLES arc, turn, first, cur, cost
vars == <<arc, turn, first, cur, cost>>
A == 1 .. NA
(* arc[i] = <<tail, head, weight>> *)
Init == /\ arc \in [A -> V \X V \X WS]
        /\ turn \in [A \X A -> TC]
        /\ \A a, b \in A : arc[a][2] # arc[b][1] => turn[<<a, b>>] = INF
        /\ first \in A /\ cur = first /\ cost = 0
Go(b) == /\ turn[<<cur, b>>] < INF
         /\ cur' = b /\ cost' = cost + arc[cur][3] + turn[<<cur, b>>]
         /\ cost' <= 6
         /\ UNCHANGED <<arc, turn, first>>
Next == \E b \in A : Go(b)
Spec == Init /\ [][Next]_vars
LineW(a, b) == IF turn[<<a, b>>] = INF THEN INF ELSE arc[a][3] + turn[<<a, b>>]
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE LD(_, _)
LD(d, k) == IF k = 0 THEN d ELSE LD(TLCEval([b \in A |-> SetMin({d[b]} \cup {Add(d[a], LineW(a, b)) : a \in A})]), k - 1)
LineDist == LD([b \in A |-> IF b = first THEN 0 ELSE INF], NA)
RECURSIVE ND(_, _)
ND(d, k) == IF k = 0 THEN d ELSE ND(TLCEval([v \in V |-> SetMin({d[v]} \cup {Add(d[arc[a][1]], arc[a][3]) : a \in {x \in A : arc[x][2] = v}})]), k - 1)
NodeDist == ND([v \in V |-> IF v = arc[first][1] THEN 0 ELSE INF], N)
WalkAtLeastLine == LineDist[cur] <= cost
LineAtLeastNode == \A b \in A : NodeDist[arc[b][1]] <= LineDist[b]
=============================================================================
