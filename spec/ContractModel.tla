--------------------------- MODULE ContractModel ---------------------------
(* Node contraction with witness searches, on every small graph and in every *)
(* order.  A shortcut may be left out whenever the remaining graph holds a   *)
(* path that is not longer; which of the allowed shortcuts are left out is   *)
(* nondeterministic, so the real witness search is one refinement.           *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N, Weights   \* nodes 0..N-1, weights; 99 is "no arc"
NONE == 99
Nodes == 0 .. N - 1
Pairs == {p \in Nodes \X Nodes : p[1] # p[2]}

VARIABLES orig, cur, up, down, left, todo, mid
vars == <<orig, cur, up, down, left, todo, mid>>

Min2(a, b) == IF a <= b THEN a ELSE b
Add(a, b) == IF a = NONE \/ b = NONE THEN NONE ELSE a + b

(* all-pairs distances of a weight function over the node set S *)
RECURSIVE FW(_, _)
FW(d, S) ==
  IF S = {} THEN d
  ELSE LET k == CHOOSE x \in S : TRUE IN
       FW(TLCEval([p \in Nodes \X Nodes |-> Min2(d[p], Add(d[<<p[1], k>>], d[<<k, p[2]>>]))]), S \ {k})
Dist(w, S) ==
  FW(TLCEval([p \in Nodes \X Nodes |-> IF p[1] = p[2] THEN 0 ELSE IF p[1] \in S /\ p[2] \in S THEN w[p] ELSE NONE]), S)

Init ==
  /\ orig \in [Pairs -> Weights \cup {NONE}]
  /\ cur = orig /\ left = Nodes /\ todo = {} /\ mid = -1
  /\ up = [p \in Pairs |-> NONE] /\ down = [p \in Pairs |-> NONE]

(* take the lowest remaining node out (ranks are node ids: all graphs are    *)
(* considered, so all orders are)                                            *)
Remove ==
  /\ todo = {} /\ left # {}
  /\ LET v == CHOOSE x \in left : \A y \in left : x <= y
         R == left \ {v} IN
     /\ up' = [p \in Pairs |-> IF p[1] = v /\ p[2] \in R THEN cur[p] ELSE up[p]]
     /\ down' = [p \in Pairs |-> IF p[2] = v /\ p[1] \in R THEN cur[p] ELSE down[p]]
     /\ todo' = {p \in Pairs : p[1] \in R /\ p[2] \in R /\ cur[<<p[1], v>>] # NONE /\ cur[<<v, p[2]>>] # NONE}
     /\ left' = R /\ mid' = v
  /\ UNCHANGED <<orig, cur>>

(* in any order over the neighbour pairs *)
Shortcut ==
  /\ todo # {}
  /\ \E p \in todo :
     /\ todo' = todo \ {p}
     /\ LET w == cur[<<p[1], mid>>] + cur[<<mid, p[2]>>] IN
        \/ cur' = [cur EXCEPT ![p] = Min2(@, w)]
        \/ Dist(cur, left)[p] <= w /\ UNCHANGED cur   \* a witness exists
  /\ UNCHANGED <<orig, up, down, left, mid>>

Next == Remove \/ Shortcut \/ (left = {} /\ todo = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Whole == Dist(orig, Nodes)
(* the overlay preserves distances between the nodes that remain *)
OverlayExact == todo = {} => \E D \in {Whole} : \E O \in {Dist(cur, left)} : \A p \in left \X left : O[p] = D[p]
(* up-down paths of the finished hierarchy are exact *)
UpDist(a) == Dist(a, Nodes)
HierarchyExact ==
  (left = {} /\ todo = {}) =>
    \E D \in {Whole} : \E U \in {UpDist(up)} : \E W \in {UpDist(down)} :
    \A s, t \in Nodes : LET S == {Add(U[<<s, m>>], W[<<m, t>>]) : m \in Nodes} IN
        \E x \in S : x = D[<<s, t>>] /\ \A y \in S : x <= y
=============================================================================
