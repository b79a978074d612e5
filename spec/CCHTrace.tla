------------------------------ MODULE CCHTrace ------------------------------
(* Recorded hierarchy construction, reordering, pruning and customization.   *)
(* State: the hierarchy built last (order, ranks, chordal supergraph), and   *)
(* the index of the metric in force.                                         *)
EXTENDS TraceBase, CCH

VARIABLES h, m
vars == <<ep, l, h, m>>

M == E.metrics[m]
none == [k |-> "none"]
Init == TBInit /\ h = none /\ m = 1

(* every certificate is checked before the metric may be used *)
Metric ==
  /\ Is("metric") /\ Ev.k \in 1 .. Len(E.metrics)
  /\ \A i \in 1 .. Len(E.metrics[Ev.k].ref) : Holds(CertOK(E, E.metrics[Ev.k].w, E.metrics[Ev.k].ref[i]))
  /\ \A s \in Nodes(E) : LET i == E.metrics[Ev.k].ri[s + 1] IN i # 0 => E.metrics[Ev.k].ref[i].s = s
  /\ m' = Ev.k /\ h' = h /\ Consume

SameOrder == Ev.order = Ev.given

Build ==
  /\ Is("build")
  /\ Inverse(Ev.order, Ev.rank, E.n)
  /\ Perm(Ev.given, E.n)
  /\ \E H \in {FillIn(E, Ev.rank)} :
     /\ ArraysOK(Ev, H, E.n)
     /\ TreeOK(Ev.et, H, E.n)
     /\ ListsOK(E, Ev.rank, Ev, Ev.fe, TRUE) /\ AllListed(E, Ev.rank, Ev.fe, TRUE)
     /\ ListsOK(E, Ev.rank, Ev, Ev.be, FALSE) /\ AllListed(E, Ev.rank, Ev.be, FALSE)
     /\ Holds(InvOK(Ev, Ev.inv, E.n))
     /\ SepTreeOK(Ev.sep, H, E.n)
     /\ CASE Ev.kind = "contract" -> Ev.order = Ev.given
          [] Ev.kind = "fix" -> \* same fill-in as the given order, and fit for parallel customization
               \E rg \in {[i \in 1 .. E.n |-> CHOOSE j \in 0 .. E.n - 1 : Ev.given[j + 1] = i - 1]} :
               \E Hg \in {FillIn(E, rg)} :
               LET und(H2, o) == {{o[u + 1], o[v + 1]} : <<u, v>> \in {p \in (0 .. E.n - 1) \X (0 .. E.n - 1) : p[2] \in H2[p[1]]}} IN
               /\ und(H, Ev.order) = und(Hg, Ev.given)
               /\ \A c \in 1 .. Len(Ev.sep) : \* consecutive cells
                    \A j \in 2 .. Len(Ev.sep[c].nodes) : Ev.sep[c].nodes[j] = Ev.sep[c].nodes[j - 1] - 1
     /\ h' = [k |-> "cch", H |-> H, L |-> Low(H, E.n), nd |-> Ev.order, rk |-> Ev.rank, sep |-> Ev.sep]
  /\ m' = m /\ Consume

(* orders derived from the hierarchy *)
Reorder ==
  /\ Is("reorder") /\ h.k = "cch"
  /\ Perm(Ev.order, E.n)
  /\ \E r2 \in {[i \in 1 .. E.n |-> CHOOSE j \in 0 .. E.n - 1 : Ev.order[j + 1] = i - 1]} :
     \E cell \in {CellOf(h.sep, E.n)} : \E anc \in {Ancestors(h.sep)} :
     LET pos(u) == r2[h.nd[u + 1] + 1] IN \* new rank of old rank u
     CASE Ev.kind \in {"bfs", "sep"} -> \* same chordal supergraph
            \E H2 \in {FillIn(E, r2)} :
            \A u \in 0 .. E.n - 1 : \A v \in u + 1 .. E.n - 1 :
              (v \in h.H[u]) = (IF pos(u) < pos(v) THEN pos(v) \in H2[pos(u)] ELSE pos(u) \in H2[pos(v)])
       [] Ev.kind = "geo" -> \* cells stay above everything below them
            \A u, v \in 0 .. E.n - 1 : (cell[u] # cell[v] /\ cell[v] \in anc[cell[u]]) => pos(u) < pos(v)
  /\ UNCHANGED <<h, m>> /\ Consume

ArcSet(X) == {<<X.tail[i], X.head[i]>> : i \in 1 .. Len(X.head)}
Pruned ==
  /\ Is("pruned") /\ h.k = "cch"
  /\ Ev.order = h.nd
  /\ \* the directed form keeps exactly the usable arcs of each direction
     \E up \in {ArcSet(Ev.dfw)} : \E dn \in {ArcSet(Ev.dbw)} : \E or \in {up \cup dn} :
     /\ Holds(UsableOK(E, h.nd, h.H, h.L, up, dn))
     /\ \A p \in up \cup dn : p[2] \in h.H[p[1]]
     /\ ArraysOK(Ev.dfw, [u \in 0 .. E.n - 1 |-> {v \in h.H[u] : <<u, v>> \in up}], E.n)
     /\ ArraysOK(Ev.dbw, [u \in 0 .. E.n - 1 |-> {v \in h.H[u] : <<u, v>> \in dn}], E.n)
     /\ ListsOK(E, h.rk, Ev.dfw, Ev.dfw.arcs, TRUE) /\ AllListed(E, h.rk, Ev.dfw.arcs, TRUE)
     /\ ListsOK(E, h.rk, Ev.dbw, Ev.dbw.arcs, FALSE) /\ AllListed(E, h.rk, Ev.dbw.arcs, FALSE)
     /\ InvOK(Ev.dfw, Ev.dfw.inv, E.n) /\ InvOK(Ev.dbw, Ev.dbw.inv, E.n)
     /\ \* the pruned undirected form keeps arcs usable in some direction
        ArraysOK(Ev.und, [u \in 0 .. E.n - 1 |-> {v \in h.H[u] : <<u, v>> \in or}], E.n)
     /\ ListsOK(E, h.rk, Ev.und, Ev.und.fe, TRUE) /\ AllListed(E, h.rk, Ev.und.fe, TRUE)
     /\ ListsOK(E, h.rk, Ev.und, Ev.und.be, FALSE) /\ AllListed(E, h.rk, Ev.und.be, FALSE)
     /\ InvOK(Ev.und, Ev.und.inv, E.n)
     /\ \* all keep the elimination tree of the full hierarchy
        TreeOK(Ev.et, h.H, E.n) /\ TreeOK(Ev.und.et, h.H, E.n)
  /\ UNCHANGED <<h, m>> /\ Consume

Cust ==
  /\ Is("cust") /\ h.k = "cch"
  /\ Holds(SubArrays(Ev.fw, h.H, E.n)) /\ Holds(SubArrays(Ev.bw, h.H, E.n))
  /\ Holds(Ev.kind = "basic" => Len(Ev.fw.head) = Len(Ev.bw.head) /\ \A u \in 0 .. E.n - 1 : Ev.fw.fo[u + 2] - Ev.fw.fo[u + 1] = Cardinality(h.H[u]))
  /\ Holds(BasicOK(E, M.w, h.nd, h.H, h.L, Ev.fw, Ev.bw))
  /\ Holds(UnpackOK(E, M.w, h.nd, Ev.fw, Ev.bw, TRUE))
  /\ Holds(UnpackOK(E, M.w, h.nd, Ev.fw, Ev.bw, FALSE))
  /\ UNCHANGED <<h, m>> /\ Consume

Perfect ==
  /\ Is("perfect") /\ h.k = "cch"
  /\ Holds(SubArrays(Ev.fw, h.H, E.n)) /\ Holds(SubArrays(Ev.bw, h.H, E.n))
  /\ IF Ev.full THEN ExactWeights(Ev.fw, M, h.nd, TRUE) /\ ExactWeights(Ev.bw, M, h.nd, FALSE)
                ELSE UpperWeights(Ev.fw, M, h.nd, TRUE) /\ UpperWeights(Ev.bw, M, h.nd, FALSE)
  /\ Holds(IF Ev.full THEN UnpackOK(E, M.w, h.nd, Ev.fw, Ev.bw, TRUE) ELSE UnpackShortest(E, M, h.nd, Ev.fw, Ev.bw, TRUE))
  /\ Holds(IF Ev.full THEN UnpackOK(E, M.w, h.nd, Ev.fw, Ev.bw, FALSE) ELSE UnpackShortest(E, M, h.nd, Ev.fw, Ev.bw, FALSE))
  /\ Holds(IF E.n <= 14 THEN UpDownExact(Ev.fw, Ev.bw, M, h.nd, E.n)
           ELSE \A i \in 1 .. Len(Ev.pairs) : UpDownPair(Ev.fw, Ev.bw, M, h.nd, Ev.pairs[i][1], Ev.pairs[i][2], E.n))
  /\ UNCHANGED <<h, m>> /\ Consume

(* in-place perfect customization: every arc exact *)
Inplace ==
  /\ Is("inplace") /\ h.k = "cch"
  /\ \A u \in 0 .. E.n - 1 : \A v \in h.H[u] : Wt(Ev.fw, u, v) = Dr(M, h.nd, u, v) /\ Wt(Ev.bw, u, v) = Dr(M, h.nd, v, u)
  /\ ExactWeights(Ev.fw, M, h.nd, TRUE) /\ ExactWeights(Ev.bw, M, h.nd, FALSE)
  /\ UNCHANGED <<h, m>> /\ Consume

(* validity: weights exact; a validity is the initial one of an arc that was *)
(* not improved, or the later one of two arcs that realise the distance      *)
VSum(u, z, v, x) ==
  LET F == Ev.fw  B == Ev.bw
      w1 == IF u < z THEN Wt(F, u, z) ELSE Wt(B, z, u)
      v1 == IF u < z THEN F.val[ArcId(F, u, z)] ELSE B.val[ArcId(B, z, u)]
      w2 == IF z < v THEN Wt(F, z, v) ELSE Wt(B, v, z)
      v2 == IF z < v THEN F.val[ArcId(F, z, v)] ELSE B.val[ArcId(B, v, z)] IN
  /\ Add(w1, w2) = x.w /\ Max2(v1, v2) = x.val
Adj(u, v) == IF u < v THEN v \in h.H[u] ELSE u \in h.H[v]
ValOK(X, up) ==
  \A i \in 1 .. Len(X.head) :
    LET u == IF up THEN X.tail[i] ELSE X.head[i]
        v == IF up THEN X.head[i] ELSE X.tail[i] IN
    \/ X.w[i] = X.w0[i] /\ X.val[i] = X.val0[i]
    \/ /\ X.w[i] < X.w0[i]
       /\ \E z \in 0 .. E.n - 1 : z # u /\ z # v /\ Adj(u, z) /\ Adj(z, v) /\ VSum(u, z, v, [w |-> X.w[i], val |-> X.val[i]])
Validity ==
  /\ Is("validity") /\ h.k = "cch"
  /\ ExactWeights(Ev.fw, M, h.nd, TRUE) /\ ExactWeights(Ev.bw, M, h.nd, FALSE)
  /\ Holds(ValOK(Ev.fw, TRUE)) /\ Holds(ValOK(Ev.bw, FALSE))
  /\ UNCHANGED <<h, m>> /\ Consume

Next == Metric \/ Build \/ Reorder \/ Pruned \/ Cust \/ Perfect \/ Inplace \/ Validity \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
