----------------------------- MODULE BidirModel -----------------------------
(* Bidirectional search as run by bidirectional_dijkstra.rs: two label-      *)
(* setting searches advance in ANY interleaving (this covers every direction *)
(* strategy, including two concurrent threads at settle granularity); the    *)
(* best meeting point is kept; a stop criterion ends the search.             *)
(* MODE selects the potential family:                                        *)
(*   "zero"  no potential, stop when the queue minima reach the best length  *)
(*   "sym"   forward/backward lower bounds (goal directed), stop when both   *)
(*           queues reached the best length, nodes that cannot be on a       *)
(*           shorter path are pruned                                         *)
(*   "symeager" as "sym", but popping the far terminal always ends the       *)
(*           search: refuted design (the code did this until it was fixed)   *)
(*   "avg"   the average of both bounds, as in AveragePotential              *)
(* The lower-bound metric is wt div LB (LB = 1: the metric itself).          *)
EXTENDS Graphs, TLC
CONSTANTS N, WS, MAXA, MODE, LB, CAPS
V == 0 .. N - 1
Pairs == {p \in V \X V : p[1] # p[2]}
VARIABLES wt, s, t, cap, pf, pb, f, b, fdone, bdone, mu, pc, res
vars == <<wt, s, t, cap, pf, pb, f, b, fdone, bdone, mu, pc, res>>

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Step1(d, w) == [v \in V |-> SetMin({d[v]} \cup {Add(d[u], w[<<u, v>>]) : u \in V \ {v}})]
RECURSIVE It(_, _, _)
It(d, w, k) == IF k = 0 THEN d ELSE It(Step1(d, w), w, k - 1)
From(x, w) == It([v \in V |-> IF v = x THEN 0 ELSE INF], w, N - 1)
Rev(w) == [p \in Pairs |-> w[<<p[2], p[1]>>]]
Low(w) == [p \in Pairs |-> IF w[p] = INF THEN INF ELSE w[p] \div LB]
(* raw lower bounds *)
PF(v) == pf[v]   \* to the target
PB(v) == pb[v]   \* from the source
True == From(s, wt)[t]

(* potentials added to the queue keys; INF = node is never queued *)
(* "avg" adds an offset that keeps half potentials non-negative; the earlier *)
(* variant "avgclamp" (clamping at zero) is kept as a refuted design.        *)
OFF == 1000
FwAdd == IF MODE = "avg" THEN OFF ELSE (PB(t) \div 2)
BwAdd == IF MODE = "avg" THEN OFF ELSE (PF(s) \div 2)
Half(x) == IF x >= 0 THEN x \div 2 ELSE -((-x) \div 2)   \* rounds toward zero, as in the code
Avg(v) == Half(PF(v) - PB(v))
FKey(v) == CASE MODE = "zero" -> f[v]
             [] MODE \in {"sym", "symeager"} -> Add(f[v], PF(v))
             [] MODE \in {"avg", "avgclamp"} -> IF PF(v) = INF \/ PB(v) = INF THEN INF ELSE Add(f[v], Max2(Avg(v) + FwAdd, 0))
BKey(v) == CASE MODE = "zero" -> b[v]
             [] MODE \in {"sym", "symeager"} -> Add(b[v], PB(v))
             [] MODE \in {"avg", "avgclamp"} -> IF PF(v) = INF \/ PB(v) = INF THEN INF ELSE Add(b[v], Max2(BwAdd - Avg(v), 0))
MuAdd == CASE MODE = "avg" -> 2 * OFF
           [] MODE = "avgclamp" -> IF PF(s) # INF THEN Avg(s) + FwAdd ELSE 0
           [] OTHER -> 0

FOpen == {v \in V : f[v] < INF /\ FKey(v) < INF /\ v \notin fdone}
BOpen == {v \in V : b[v] < INF /\ BKey(v) < INF /\ v \notin bdone}
FMin == SetMin({FKey(v) : v \in FOpen} \cup {INF})
BMin == SetMin({BKey(v) : v \in BOpen} \cup {INF})
Lim == Min2(mu, cap)

StopSym == \/ /\ (FOpen = {} \/ FMin >= Lim)
              /\ (BOpen = {} \/ BMin >= Lim)
           \/ Lim = INF /\ (FOpen = {} \/ BOpen = {})
StopSum == FOpen = {} \/ BOpen = {} \/ Add(FMin, BMin) >= Add(Lim, MuAdd)
Stop == IF MODE \in {"sym", "symeager"} THEN StopSym ELSE StopSum

(* labels never improve over what they may: pruned improvements are dropped *)
FPrune(v, d) == MODE # "zero" /\ Lim < INF /\ Add(d, PF(v)) >= Lim
BPrune(v, d) == MODE # "zero" /\ Lim < INF /\ Add(d, PB(v)) >= Lim

Init == /\ wt \in [Pairs -> WS]
        /\ Cardinality({p \in Pairs : wt[p] < INF}) <= MAXA
        /\ s = 0 /\ t \in V
        /\ cap \in CAPS
        /\ pf = From(t, Rev(Low(wt))) /\ pb = From(s, Low(wt))
        /\ f = [v \in V |-> IF v = s THEN 0 ELSE INF]
        /\ b = [v \in V |-> IF v = t THEN 0 ELSE INF]
        /\ fdone = {} /\ bdone = {} /\ mu = INF /\ pc = "run" /\ res = -1

(* relax all arcs out of u; the meeting point is updated while relaxing *)
Fwd(u) ==
  /\ pc = "run" /\ ~Stop /\ u \in FOpen /\ FKey(u) = FMin
  /\ LET imp == {v \in V \ {u} : Add(f[u], wt[<<u, v>>]) < f[v] /\ ~FPrune(v, Add(f[u], wt[<<u, v>>]))}
         f2 == [v \in V |-> IF v \in imp THEN Add(f[u], wt[<<u, v>>]) ELSE f[v]]
     IN /\ f' = f2
        /\ mu' = SetMin({mu} \cup {Add(f2[v], b[v]) : v \in imp})
        /\ fdone' = (fdone \cup {u}) \ imp     \* re-opened if improved again
        /\ IF u = t /\ (f[t] <= mu' \/ MODE = "symeager") THEN pc' = "stop" /\ res' = f[t] ELSE UNCHANGED <<pc, res>>
  /\ UNCHANGED <<wt, s, t, cap, pf, pb, b, bdone>>
Bwd(u) ==
  /\ pc = "run" /\ ~Stop /\ u \in BOpen /\ BKey(u) = BMin
  /\ LET imp == {v \in V \ {u} : Add(b[u], wt[<<v, u>>]) < b[v] /\ ~BPrune(v, Add(b[u], wt[<<v, u>>]))}
         b2 == [v \in V |-> IF v \in imp THEN Add(b[u], wt[<<v, u>>]) ELSE b[v]]
     IN /\ b' = b2
        /\ mu' = SetMin({mu} \cup {Add(b2[v], f[v]) : v \in imp})
        /\ bdone' = (bdone \cup {u}) \ imp
        /\ IF u = s /\ (b[s] <= mu' \/ MODE = "symeager") THEN pc' = "stop" /\ res' = b[s] ELSE UNCHANGED <<pc, res>>
  /\ UNCHANGED <<wt, s, t, cap, pf, pb, f, fdone>>
Finish == /\ pc = "run" /\ Stop /\ pc' = "stop" /\ res' = (IF mu = INF THEN -1 ELSE mu)
          /\ UNCHANGED <<wt, s, t, cap, pf, pb, f, b, fdone, bdone, mu>>
Next == (\E u \in V : Fwd(u) \/ Bwd(u)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exact == pc = "stop" => IF cap = INF THEN res = (IF True = INF THEN -1 ELSE True)
                        ELSE IF True < cap THEN res = True ELSE res = -1 \/ res >= True
UpperBound == mu = INF \/ mu >= True
Terminates == <>(pc = "stop")
=============================================================================
