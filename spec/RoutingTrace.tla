---------------------------- MODULE RoutingTrace ----------------------------
(* The routing service every query algorithm of the library must refine:     *)
(* a metric is installed, and from then on every question is answered with   *)
(* the shortest-path semantics of that metric.                               *)
(* `metric` is the abstract state of the service; `open`/`done`/`tent` is    *)
(* the state of a label-setting search replayed step by step.                *)
EXTENDS Graphs, TraceBase

VARIABLES metric, tent, done
vars == <<ep, l, metric, tent, done>>

M == E.metrics[metric]
W == M.w
HasRow(s) == M.ri[s + 1] # 0
Row(s) == M.ref[M.ri[s + 1]].d
D(s, t) == Row(s)[t + 1]
Answer(s, t) == IF D(s, t) = INF THEN -1 ELSE D(s, t)

(* -- install a metric: its certificates are checked here, by the spec ----- *)
Install ==
  /\ Is("metric")
  /\ metric' = Ev.k
  /\ LET m == E.metrics[Ev.k] IN
       \A i \in 1 .. Len(m.ref) : /\ CertOK(E, m.w, m.ref[i])
                                  /\ m.ri[m.ref[i].s + 1] = i
  /\ UNCHANGED <<tent, done>>

(* -- one-to-one ----------------------------------------------------------- *)
Query ==
  /\ Is("q")
  /\ Ev.d = Answer(Ev.s, Ev.t)
  /\ IF Ev.d >= 0 THEN PathOK(E, W, Ev.s, Ev.t, Ev.path, Ev.d) ELSE Len(Ev.path) = 0
  /\ UNCHANGED <<metric, tent, done>>
QueryDist ==
  /\ Is("qd")
  /\ Ev.d = Answer(Ev.s, Ev.t)
  /\ UNCHANGED <<metric, tent, done>>
QueryEdges ==
  /\ Is("qe")
  /\ Ev.d = Answer(Ev.s, Ev.t)
  /\ IF Ev.d >= 0
     THEN PathOK(E, W, Ev.s, Ev.t, Ev.path, Ev.d) /\ EdgePathOK(E, W, Ev.path, Ev.ep, Ev.d)
     ELSE Len(Ev.path) = 0 /\ Len(Ev.ep) = 0
  /\ UNCHANGED <<metric, tent, done>>
(* with a cap: exact below the cap, never below the truth, never invented *)
QueryCap ==
  /\ Is("cap")
  /\ IF D(Ev.s, Ev.t) < Ev.cap THEN Ev.d = D(Ev.s, Ev.t)
     ELSE Ev.d = -1 \/ (Ev.d >= D(Ev.s, Ev.t) /\ Ev.d < INF)
  /\ UNCHANGED <<metric, tent, done>>

(* the same with the links of the walk: <<tail, head, weight>> *)
RECURSIVE StepSum(_, _)
StepSum(steps, i) == IF i > Len(steps) THEN 0 ELSE Add(steps[i][3], StepSum(steps, i + 1))
QueryCapWalk ==
  /\ Is("qcap")
  /\ IF D(Ev.s, Ev.t) < Ev.cap THEN Ev.d = D(Ev.s, Ev.t)
     ELSE Ev.d = -1 \/ (Ev.d >= D(Ev.s, Ev.t) /\ Ev.d < INF)
  /\ IF Ev.d < 0 THEN Len(Ev.path) = 0 /\ Len(Ev.steps) = 0
     ELSE /\ Len(Ev.path) = Len(Ev.steps) + 1
          /\ Ev.path[1] = Ev.s /\ Ev.path[Len(Ev.path)] = Ev.t
          /\ \A i \in 1 .. Len(Ev.steps) :
               /\ Ev.steps[i][1] = Ev.path[i] /\ Ev.steps[i][2] = Ev.path[i + 1]
               /\ \E e \in Arcs(E) : E.tail[e] = Ev.path[i] /\ E.head[e] = Ev.path[i + 1] /\ W[e] = Ev.steps[i][3]
          /\ IF D(Ev.s, Ev.t) < Ev.cap THEN StepSum(Ev.steps, 1) = Ev.d ELSE StepSum(Ev.steps, 1) <= Ev.d
  /\ UNCHANGED <<metric, tent, done>>

(* -- alternative routes by penalties (no arc of weight 0) ------------------ *)
SimpleGraph == \A e \in Arcs(E), f \in Arcs(E) : (e # f /\ E.tail[e] = E.tail[f]) => E.head[e] # E.head[f]
Pairs(p) == {<<p[i], p[i + 1]>> : i \in 1 .. Len(p) - 1}
(* length of the part of p which uses none of the arcs in U                 *)
RECURSIVE NewLen(_, _, _)
NewLen(p, U, i) ==
  IF i >= Len(p) THEN 0
  ELSE (IF <<p[i], p[i + 1]>> \in U THEN 0 ELSE ArcWeight(E, W, p[i], p[i + 1])) + NewLen(p, U, i + 1)
(* arcs on some shortest way; they form a single path if no two leave the   *)
(* same node                                                                *)
Tight(s, t) == {<<E.tail[e], E.head[e]>> : e \in {x \in Arcs(E) : W[x] < INF /\ D(s, E.tail[x]) < INF /\ D(E.head[x], t) < INF
                                                   /\ D(s, E.tail[x]) + W[x] + D(E.head[x], t) = D(s, t)}}
Unique(T) == \A x \in T, y \in T : x # y => x[1] # y[1]
Alternatives ==
  /\ Is("alt")
  /\ UNCHANGED <<metric, tent, done>>
  /\ LET d == D(Ev.s, Ev.t) P == Ev.paths IN
     IF d = INF THEN ~Ev.found /\ Len(P) = 0
     ELSE /\ (~Ev.one => Ev.found) /\ Len(P) <= 5
          /\ \A i \in 1 .. Len(P) :
               \E len \in {PathLen(E, W, P[i])} :
                 /\ PathOK(E, W, Ev.s, Ev.t, P[i], len)
                 /\ len >= d
                 /\ IF Ev.one \/ i < Len(P) THEN len <= (5 * d) \div 4 ELSE TRUE
          /\ IF SimpleGraph /\ Len(P) > 0
             THEN \E T \in {Tight(Ev.s, Ev.t)} :
                  \A i \in 1 .. Len(P) :
                    NewLen(P[i], UNION {Pairs(P[j]) : j \in 1 .. i - 1} \cup (IF Unique(T) THEN T ELSE {}), 1) > PathLen(E, W, P[i]) \div 5
             ELSE TRUE
AlternativeGraph == Is("altgraph") /\ Ev.found = (D(Ev.s, Ev.t) < INF) /\ UNCHANGED <<metric, tent, done>>

(* -- one-to-all / one-to-many --------------------------------------------- *)
All ==
  /\ Is("all")
  /\ Len(Ev.d) = E.n
  /\ \A v \in 1 .. E.n : Ev.d[v] = Row(Ev.s)[v]
  /\ \A v \in 1 .. E.n :
       (Ev.d[v] < INF /\ v # Ev.s + 1) =>
          /\ Ev.pred[v] \in Nodes(E)
          /\ Add(Ev.d[Ev.pred[v] + 1], ArcWeight(E, W, Ev.pred[v], v - 1)) = Ev.d[v]
  /\ UNCHANGED <<metric, tent, done>>
Many ==
  /\ Is("many")
  /\ Len(Ev.ds) = Len(Ev.ts)
  /\ \A i \in 1 .. Len(Ev.ts) : Ev.ds[i] = D(Ev.s, Ev.ts[i])
  /\ UNCHANGED <<metric, tent, done>>
(* many-to-one, for backward searches and estimates: v = dist(node, t) *)
ToTarget ==
  /\ Is("pot")
  /\ LET d == D(Ev.v, Ev.t) IN
       IF Ev.exact THEN Ev.p = (IF d = INF THEN -1 ELSE d)
       ELSE IF d = INF THEN Ev.p >= -1 ELSE Ev.p >= 0 /\ Ev.p <= d
  /\ UNCHANGED <<metric, tent, done>>

(* Dijkstra ranks: entry k is a node settled 2^k-th: exactly the nodes      *)
(* closer than it can precede it.                                           *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Ranks ==
  /\ Is("ranks")
  /\ LET row == Row(Ev.s)
         reach == Cardinality({v \in 1 .. E.n : row[v] < INF})
     IN /\ \A i \in 1 .. Len(Ev.r) :
             LET x == Ev.r[i] d == row[x[1] + 1] k == Pow2(x[3]) IN
             /\ x[3] = i - 1
             /\ x[2] = d /\ d < INF
             /\ Cardinality({v \in 1 .. E.n : row[v] < d}) < k
             /\ k <= Cardinality({v \in 1 .. E.n : row[v] <= d})
        /\ reach < Pow2(Len(Ev.r))
        /\ Len(Ev.r) > 0 /\ reach >= Pow2(Len(Ev.r) - 1)
  /\ UNCHANGED <<metric, tent, done>>

(* -- label-setting search, step by step ----------------------------------- *)
SBegin ==
  /\ Is("sbegin")
  /\ tent' = [v \in Nodes(E) |-> IF v = Ev.s THEN 0 ELSE INF]
  /\ done' = {}
  /\ UNCHANGED metric
OpenOf(tn, dn) == {v \in Nodes(E) : tn[v] < INF /\ v \notin dn}
RECURSIVE Relax(_, _, _, _)
Relax(tn, u, e, last) ==
  IF e > last THEN tn
  ELSE Relax([tn EXCEPT ![E.head[e]] = Min2(@, Add(tn[u], W[e]))], u, e + 1, last)
Settle ==
  /\ Is("settle")
  /\ Ev.v \in OpenOf(tent, done)
  /\ \A u \in OpenOf(tent, done) : tent[Ev.v] <= tent[u]
  /\ Ev.d = tent[Ev.v]
  /\ tent' = Relax(tent, Ev.v, E.fo[Ev.v + 1] + 1, E.fo[Ev.v + 2])
  /\ done' = done \cup {Ev.v}
  /\ {<<Ev.q[i][1], Ev.q[i][2]>> : i \in 1 .. Len(Ev.q)} = {<<u, tent'[u]>> : u \in OpenOf(tent', done')}
  /\ Len(Ev.q) = Cardinality(OpenOf(tent', done'))
  /\ UNCHANGED metric
SEnd ==
  /\ Is("send")
  /\ OpenOf(tent, done) = {}
  /\ tent' = <<>> /\ done' = {}
  /\ UNCHANGED metric

(* -- k nearest neighbours -------------------------------------------------- *)
Knn ==
  /\ Is("knn")
  /\ LET row == Row(Ev.s)
         T == {Ev.targets[i] : i \in 1 .. Len(Ev.targets)}
         reach == {t \in T : row[t + 1] < INF}
         k == Min2(Ev.k, Cardinality(reach))
         res == Ev.res
     IN /\ Len(res) = k
        /\ \A i \in 1 .. k : res[i][2] \in reach /\ res[i][1] = row[res[i][2] + 1]
        /\ \A i \in 1 .. k - 1 : res[i][1] <= res[i + 1][1]
        /\ \A i, j \in 1 .. k : i # j => res[i][2] # res[j][2]
        /\ k > 0 => \A t \in reach : row[t + 1] < res[k][1] => \E i \in 1 .. k : res[i][2] = t
  /\ UNCHANGED <<metric, tent, done>>

(* -- partially contracted graph: on the nodes that remain (ranks >= count)  *)
(* distances are those of the input; Ev.g.ref are certificates for it        *)
Overlay ==
  /\ Is("overlay")
  /\ Len(Ev.order) = E.n /\ {Ev.order[i] : i \in 1 .. E.n} = Nodes(E)
  /\ LET G2 == Ev.g IN
     /\ \A a \in Arcs(G2) : G2.tail[a] >= Ev.count /\ G2.head[a] >= Ev.count /\ G2.tail[a] # G2.head[a]
     /\ \A a, b \in Arcs(G2) : (G2.tail[a] = G2.tail[b] /\ G2.head[a] = G2.head[b]) => a = b
     /\ Len(G2.back) = Len(G2.tail)
     /\ {<<G2.back[i][1], G2.back[i][2], G2.back[i][3]>> : i \in 1 .. Len(G2.back)} = {<<G2.tail[a], G2.head[a], G2.w[a]>> : a \in Arcs(G2)}
     /\ Len(G2.ref) = E.n - Ev.count
     /\ \A i \in 1 .. Len(G2.ref) :
          /\ G2.ref[i].s = Ev.count + i - 1
          /\ Holds(CertOK(G2, G2.w, G2.ref[i]))
          /\ \A t \in Ev.count .. E.n - 1 : G2.ref[i].d[t + 1] = D(Ev.order[G2.ref[i].s + 1], Ev.order[t + 1])
  /\ UNCHANGED <<metric, tent, done>>

(* a hub lies on a shortest path *)
Hub ==
  /\ Is("hub")
  /\ Ev.via \in Nodes(E)
  /\ Ev.d = D(Ev.s, Ev.t) /\ Ev.d = Add(D(Ev.s, Ev.via), D(Ev.via, Ev.t))
  /\ UNCHANGED <<metric, tent, done>>

Init == TBInit /\ metric = 0 /\ tent = <<>> /\ done = {}
Step == \/ Install \/ Alternatives \/ AlternativeGraph \/ Query \/ QueryDist \/ QueryEdges \/ QueryCap \/ QueryCapWalk \/ All \/ Many \/ ToTarget \/ Ranks
        \/ SBegin \/ Settle \/ SEnd \/ Knn \/ Overlay \/ Hub
Next == \/ Step /\ Consume
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
