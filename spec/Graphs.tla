------------------------------- MODULE Graphs -------------------------------
(* Weighted directed multigraphs, shortest-path semantics and certificates.  *)
(* Node ids are 0-based (as in the implementation), sequences 1-based.       *)
(* A graph G is a record with n, fo (CSR offsets), tail, head; a metric is a *)
(* sequence of arc weights.  INF is the implementation's INFINITY.           *)
EXTENDS Integers, Sequences, FiniteSets

INF == 2147483647

Add(a, b) == IF a = INF \/ b = INF THEN INF ELSE IF a > INF - b THEN INF ELSE a + b
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

Nodes(G) == 0 .. (G.n - 1)
Arcs(G) == 1 .. Len(G.tail)
Out(G, u) == (G.fo[u + 1] + 1) .. G.fo[u + 2]

(* A row r = [s, d, p, o] certifies that d is THE vector of shortest path   *)
(* distances from s under w:  d is a feasible upper-bounding potential      *)
(* (no arc improves it), and every finite entry is realised by the tree p,  *)
(* whose acyclicity is witnessed by the settling order o.                   *)
CertOK(G, w, r) ==
  /\ Len(r.d) = G.n
  /\ r.d[r.s + 1] = 0
  /\ \A e \in Arcs(G) : w[e] >= 0 /\ r.d[G.head[e] + 1] <= Add(r.d[G.tail[e] + 1], w[e])
  /\ \A v \in 1 .. G.n :
       \/ v = r.s + 1
       \/ r.d[v] = INF
       \/ LET e == r.p[v] IN
            /\ e \in Arcs(G)
            /\ G.head[e] = v - 1
            /\ w[e] < INF
            /\ r.d[v] = Add(r.d[G.tail[e] + 1], w[e])
            /\ r.o[G.tail[e] + 1] < r.o[v]

(* Cheapest arc u->v, INF if there is none. *)
RECURSIVE MinArc(_, _, _, _, _)
MinArc(G, w, v, e, last) ==
  IF e > last THEN INF
  ELSE IF G.head[e] = v THEN Min2(w[e], MinArc(G, w, v, e + 1, last))
  ELSE MinArc(G, w, v, e + 1, last)
ArcWeight(G, w, u, v) == MinArc(G, w, v, G.fo[u + 1] + 1, G.fo[u + 2])

RECURSIVE PathLenFrom(_, _, _, _)
PathLenFrom(G, w, path, i) ==
  IF i >= Len(path) THEN 0
  ELSE Add(ArcWeight(G, w, path[i], path[i + 1]), PathLenFrom(G, w, path, i + 1))
PathLen(G, w, path) == PathLenFrom(G, w, path, 1)

(* path is a walk s..t of the graph of length exactly d *)
PathOK(G, w, s, t, path, d) ==
  /\ Len(path) >= 1
  /\ \A i \in 1 .. Len(path) : path[i] \in Nodes(G)
  /\ path[1] = s
  /\ path[Len(path)] = t
  /\ PathLen(G, w, path) = d
  /\ d < INF

RECURSIVE EdgeSum(_, _, _)
EdgeSum(w, ep, i) == IF i > Len(ep) THEN 0 ELSE Add(w[ep[i] + 1], EdgeSum(w, ep, i + 1))
(* ep (0-based arc ids) is a walk along path with total weight d *)
EdgePathOK(G, w, path, ep, d) ==
  /\ Len(ep) = Len(path) - 1
  /\ \A i \in 1 .. Len(ep) : /\ ep[i] + 1 \in Arcs(G)
                             /\ G.tail[ep[i] + 1] = path[i]
                             /\ G.head[ep[i] + 1] = path[i + 1]
  /\ EdgeSum(w, ep, 1) = d

(* Definitional distances by value iteration (Bellman-Ford): used by the    *)
(* exhaustively checked models, where no certificates are available.        *)
BFStep(G, w, d) ==
  [v \in Nodes(G) |->
     LET c == {Add(d[G.tail[e]], w[e]) : e \in {x \in Arcs(G) : G.head[x] = v}} \cup {d[v]}
     IN CHOOSE x \in c : \A y \in c : x <= y]
RECURSIVE BF(_, _, _, _)
BF(G, w, d, k) == IF k = 0 THEN d ELSE BF(G, w, BFStep(G, w, d), k - 1)
Dist(G, w, s) == BF(G, w, [v \in Nodes(G) |-> IF v = s THEN 0 ELSE INF], G.n)
=============================================================================
