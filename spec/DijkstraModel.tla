---------------------------- MODULE DijkstraModel ----------------------------
(* Label-setting search as the implementation runs it (generic_dijkstra.rs): *)
(* a queue of open nodes, the minimum is settled, arcs are relaxed, an early *)
(* stop once the target is settled.  Ties may be broken either way.  Checked *)
(* for every graph on N nodes with arc weights from WS and every pair.       *)
EXTENDS Graphs, TLC
CONSTANTS N, WS, MAXA
V == 0 .. N - 1
Pairs == {p \in V \X V : p[1] # p[2]}
VARIABLES wt, s, t, tent, pred, done, pc
vars == <<wt, s, t, tent, pred, done, pc>>
(* wt: one arc per ordered pair, INF = absent *)
RECURSIVE SetMin(_)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Step1(d) == [v \in V |-> SetMin({d[v]} \cup {Add(d[u], wt[<<u, v>>]) : u \in V \ {v}})]
RECURSIVE It(_, _)
It(d, k) == IF k = 0 THEN d ELSE It(Step1(d), k - 1)
True(x) == It([v \in V |-> IF v = x THEN 0 ELSE INF], N - 1)

Init == /\ wt \in [Pairs -> WS]
        /\ Cardinality({p \in Pairs : wt[p] < INF}) <= MAXA
        /\ s = 0 /\ t \in V
        /\ tent = [v \in V |-> IF v = s THEN 0 ELSE INF]
        /\ pred = [v \in V |-> v]
        /\ done = {} /\ pc = "run"
Open == {v \in V : tent[v] < INF /\ v \notin done}
Improves(u, v) == v # u /\ Add(tent[u], wt[<<u, v>>]) < tent[v]
Settle(u) ==
  /\ pc = "run" /\ u \in Open
  /\ \A v \in Open : tent[u] <= tent[v]
  /\ done' = done \cup {u}
  /\ IF u = t THEN pc' = "stop" /\ UNCHANGED <<tent, pred>>
     ELSE /\ tent' = [v \in V |-> IF Improves(u, v) THEN Add(tent[u], wt[<<u, v>>]) ELSE tent[v]]
          /\ pred' = [v \in V |-> IF Improves(u, v) THEN u ELSE pred[v]]
          /\ UNCHANGED pc
  /\ UNCHANGED <<wt, s, t>>
Exhausted == pc = "run" /\ Open = {} /\ pc' = "stop" /\ UNCHANGED <<wt, s, t, tent, pred, done>>
Next == (\E u \in V : Settle(u)) \/ Exhausted
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* a node is never improved after it was settled; settled labels are final *)
LabelSetting == \A u \in done : tent[u] = True(s)[u]
Exact == pc = "stop" => tent[t] = True(s)[t]
(* the predecessor tree realises the labels *)
Tree == \A v \in V : (tent[v] < INF /\ v # s) => Add(tent[pred[v]], wt[<<pred[v], v>>]) = tent[v]
Monotone == \A u \in done : \A v \in Open : tent[u] <= tent[v]
Terminates == <>(pc = "stop")
=============================================================================
