----------------------------- MODULE GraphTrace -----------------------------
(* Graphs as multisets of arcs <<tail, head, weight>>; every change of       *)
(* representation is a function on them (C15), and turn expansion (C11) is   *)
(* the graph whose nodes are the arcs.  E carries the input graph.           *)
EXTENDS Graphs, TraceBase

VARIABLES cur
vars == <<ep, l, cur>>
(* cur: arcs of the turn-expanded graph of this episode, set by LineGraph    *)

Same(A, B) == \* equal as multisets
  /\ Len(A) = Len(B)
  /\ \A i \in 1 .. Len(A) : Cardinality({j \in 1 .. Len(A) : A[j] = A[i]}) = Cardinality({j \in 1 .. Len(B) : B[j] = A[i]})
Triples(S) == [i \in 1 .. Len(S) |-> <<S[i][1], S[i][2], S[i][3]>>]
W == E.w
AllArcs == [a \in 1 .. Len(E.tail) |-> <<E.tail[a], E.head[a], W[a]>>]
Map(S, F(_)) == [i \in 1 .. Len(S) |-> F(S[i])]
Rank == Ev.rank
Permutation(p) == Len(p) = E.n /\ {p[i] : i \in 1 .. E.n} = Nodes(E)

(* the arrays represent the input as it is: order of arcs within a node too  *)
Access ==
  /\ Is("access")
  /\ Ev.n = E.n /\ Ev.m = Len(E.tail)
  /\ Len(Ev.deg) = E.n /\ \A v \in Nodes(E) : Ev.deg[v + 1] = E.fo[v + 2] - E.fo[v + 1]
  /\ Len(Ev.rng) = E.n /\ \A v \in Nodes(E) : Ev.rng[v + 1][1] = E.fo[v + 1] /\ Ev.rng[v + 1][2] = E.fo[v + 2]
  /\ Triples(Ev.iter) = AllArcs
  /\ Len(Ev.links) = Len(E.tail) /\ \A a \in Arcs(E) : Ev.links[a][1] = E.head[a] /\ Ev.links[a][2] = W[a]
  /\ Len(Ev.ids) = Len(E.tail) /\ \A a \in Arcs(E) : Ev.ids[a] = <<E.tail[a], E.head[a], a - 1>>
  \* <<u, v, ids of the arcs from u to v>>
  /\ \A i \in 1 .. Len(Ev.find) : LET x == Ev.find[i] IN
       {x[3][j] : j \in 1 .. Len(x[3])} = {a - 1 : a \in {b \in Arcs(E) : E.tail[b] = x[1] /\ E.head[b] = x[2]}}
  /\ UNCHANGED cur
Orders ==
  /\ Is("order")
  /\ Permutation(Ev.input)
  /\ Len(Ev.node) = E.n /\ Len(Ev.rank) = E.n /\ Len(Ev.order) = E.n /\ Len(Ev.ranks) = E.n /\ Ev.len = E.n
  /\ \A i \in 1 .. E.n : /\ Ev.node[i] = Ev.order[i] /\ Ev.rank[i] = Ev.ranks[i]
                         /\ Ev.rank[Ev.node[i] + 1] = i - 1 /\ Ev.node[Ev.rank[i] + 1] = i - 1
                         /\ IF Ev.kind = "order" THEN Ev.node[i] = Ev.input[i] ELSE IF Ev.kind = "ranks" THEN Ev.rank[i] = Ev.input[i] ELSE Ev.node[i] = i - 1
  /\ UNCHANGED cur
FirstOut == /\ Is("firstout")
            /\ Len(Ev.fo) = Len(Ev.deg) + 1 /\ Ev.fo[1] = 0
            /\ \A i \in 1 .. Len(Ev.deg) : Ev.fo[i + 1] = Ev.fo[i] + Ev.deg[i]
            /\ UNCHANGED cur
(* result arcs Ev.arcs of the transformation Ev.op                           *)
Transform ==
  /\ \/ Is("rev") /\ Same(Triples(Ev.arcs), Map(AllArcs, LAMBDA x : <<x[2], x[1], x[3]>>))
     \/ Is("revid") /\ Same(Triples(Ev.arcs), [a \in Arcs(E) |-> <<E.head[a], E.tail[a], a - 1>>])
     \/ Is("adj") /\ Triples(Ev.arcs) = AllArcs
     \/ Is("noinf") /\ Same(Triples(Ev.arcs), SelectSeq(AllArcs, LAMBDA x : x[3] < INF))
     \/ Is("norev") /\ Same(Triples(Ev.arcs), Map(SelectSeq(AllArcs, LAMBDA x : x[3] < INF), LAMBDA x : <<x[2], x[1], x[3]>>))
     \/ Is("unify") /\ Triples(Ev.arcs) = Map(AllArcs, LAMBDA x : <<x[1], x[2], ArcWeight(E, W, x[1], x[2])>>)
     \/ /\ Is("perm") /\ Permutation(Rank)
        /\ \E R \in {Rank} : Same(Triples(Ev.arcs), Map(AllArcs, LAMBDA x : <<R[x[1] + 1], R[x[2] + 1], x[3]>>))
     \* keep: the pairs of new ids the predicate accepts
     \/ /\ Is("permf") /\ Permutation(Rank)
        /\ \E R \in {Rank} : \E K \in {{<<Ev.keep[i][1], Ev.keep[i][2]>> : i \in 1 .. Len(Ev.keep)}} :
             Same(Triples(Ev.arcs), SelectSeq(Map(AllArcs, LAMBDA x : <<R[x[1] + 1], R[x[2] + 1], x[3]>>), LAMBDA y : <<y[1], y[2]>> \in K))
  /\ UNCHANGED cur
(* up: arcs to higher ranked nodes at their tail; down: the others, at their head *)
Split ==
  /\ Is("split") /\ Permutation(Rank)
  /\ \E R \in {Rank} :
       /\ Same(Triples(Ev.up), SelectSeq(AllArcs, LAMBDA x : R[x[1] + 1] < R[x[2] + 1]))
       /\ Same(Triples(Ev.down), Map(SelectSeq(AllArcs, LAMBDA x : R[x[1] + 1] >= R[x[2] + 1]), LAMBDA x : <<x[2], x[1], x[3]>>))
  /\ UNCHANGED cur

-----------------------------------------------------------------------------
(* Turn expansion.  E.turns: <<from arc, to arc, cost>> for allowed turns,   *)
(* arcs 0-based.  The expanded graph has an arc for every allowed turn, as   *)
(* expensive as the arc left behind and the turn together.                   *)
Turns == [i \in 1 .. Len(E.turns) |-> <<E.turns[i][1], E.turns[i][2], E.turns[i][3]>>]
LineArcs == Map(Turns, LAMBDA x : <<x[1], x[2], W[x[1] + 1] + x[3]>>)
LineGraph ==
  /\ Is("line")
  /\ \A i \in 1 .. Len(E.turns) : E.head[E.turns[i][1] + 1] = E.tail[E.turns[i][2] + 1]
  /\ Ev.n = Len(E.tail)
  /\ Same(Triples(Ev.arcs), LineArcs)
  \* E.lg is the expanded graph in array form, as used by the certificates
  /\ Len(E.lg.tail) = Len(E.turns) /\ E.lg.n = Len(E.tail)
  /\ Same([a \in 1 .. Len(E.lg.tail) |-> <<E.lg.tail[a], E.lg.head[a], E.lg.w[a]>>], LineArcs)
  /\ \A i \in 1 .. Len(E.lg.ref) : Holds(CertOK(E.lg, E.lg.w, E.lg.ref[i])) /\ E.lg.ref[i].s = i - 1
  /\ \A i \in 1 .. Len(E.ref) : Holds(CertOK(E, W, E.ref[i])) /\ E.ref[i].s = i - 1
  /\ cur' = 1
(* cheapest turn-aware walk from arc s to arc t                              *)
LD(s, t) == E.lg.ref[s + 1].d[t + 1]
ND(s, t) == E.ref[s + 1].d[t + 1]
LineQuery ==
  /\ Is("lq") /\ cur = 1
  /\ Ev.d = (IF LD(Ev.s, Ev.t) = INF THEN -1 ELSE LD(Ev.s, Ev.t))
  /\ IF Ev.d >= 0 THEN \* a chain of allowed turns whose costs add up
       /\ Len(Ev.path) >= 1 /\ Ev.path[1] = Ev.s /\ Ev.path[Len(Ev.path)] = Ev.t
       /\ \A i \in 1 .. Len(Ev.path) : Ev.path[i] \in 0 .. Len(E.tail) - 1
       /\ PathLen(E.lg, E.lg.w, Ev.path) = Ev.d
     ELSE Len(Ev.path) = 0
  /\ UNCHANGED cur
(* a bound for the expanded graph: admissible; if the estimate on the node   *)
(* graph is exact, it is the distance between the tails                      *)
LinePot ==
  /\ Is("lpot") /\ cur = 1
  /\ LET d == LD(Ev.v, Ev.t) b == ND(E.tail[Ev.v + 1], E.tail[Ev.t + 1]) IN
     /\ IF Ev.exact THEN Ev.p = (IF b = INF THEN -1 ELSE b) ELSE (b < INF => Ev.p >= 0 /\ Ev.p <= b)
     /\ IF d = INF THEN Ev.p >= -1 ELSE Ev.p >= 0 /\ Ev.p <= d
  /\ UNCHANGED cur
(* time-dependent: the arcs of the expanded network take, at each departure, *)
(* what the arc left behind takes plus the turn; samples <<t, orig, expanded>> *)
LineTD ==
  /\ Is("ltd")
  /\ Same([i \in 1 .. Len(Ev.arcs) |-> <<Ev.arcs[i][1], Ev.arcs[i][2]>>], [i \in 1 .. Len(E.turns) |-> <<Turns[i][1], Turns[i][2]>>])
  /\ \A i \in 1 .. Len(Ev.arcs) :
       \E k \in 1 .. Len(E.turns) : /\ Turns[k][1] = Ev.arcs[i][1] /\ Turns[k][2] = Ev.arcs[i][2]
                                    /\ \A j \in 1 .. Len(Ev.smp[i]) : Ev.smp[i][j][3] = Ev.smp[i][j][2] + Turns[k][3]
  /\ UNCHANGED cur

Init == TBInit /\ cur = 0
Step == Access \/ Orders \/ FirstOut \/ Transform \/ Split \/ LineGraph \/ LineQuery \/ LinePot \/ LineTD
Next == \/ Step /\ Consume
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
