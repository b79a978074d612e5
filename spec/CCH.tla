-------------------------------- MODULE CCH --------------------------------
(* Customizable contraction hierarchies: the chordal supergraph of a node    *)
(* order, customized weights, perfect customization.  Everything below is    *)
(* in rank space: nodes are ranks 0..n-1, rk[v+1] is the rank of node v.     *)
EXTENDS Graphs, TLC

Perm(s, n) == Len(s) = n /\ {s[i] : i \in 1 .. n} = 0 .. n - 1
Inverse(o, r, n) == Perm(o, n) /\ Len(r) = n /\ \A i \in 1 .. n : r[o[i] + 1] = i - 1

Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(* upward neighbours in the input graph *)
Base(G, rk) ==
  TLCEval([u \in 0 .. G.n - 1 |->
     {rk[G.head[e] + 1] : e \in {x \in Arcs(G) : rk[G.tail[x] + 1] = u}} \cup
     {rk[G.tail[e] + 1] : e \in {x \in Arcs(G) : rk[G.head[x] + 1] = u}}])
UpBase(b) == TLCEval([u \in DOMAIN b |-> {v \in b[u] : v > u}])

(* Elimination in rank order: the upper neighbours of an eliminated node     *)
(* become a clique; it suffices to hand them to the lowest of them.          *)
RECURSIVE Elim(_, _, _)
Elim(H, k, n) ==
  IF k = n THEN H
  ELSE IF H[k] = {} THEN Elim(H, k + 1, n)
  ELSE LET p == Least(H[k]) IN Elim(TLCEval([H EXCEPT ![p] = @ \cup (H[k] \ {p})]), k + 1, n)
FillIn(G, rk) == Elim(TLCEval(UpBase(Base(G, rk))), 0, G.n)

(* The same by definition: u < v are adjacent iff they are linked by a path  *)
(* all of whose interior nodes are lower than both (used by the model).      *)
RECURSIVE Closure(_, _, _, _)
Closure(b, S, lim, k) ==
  IF k = 0 THEN S
  ELSE Closure(b, TLCEval(S \cup UNION {b[x] : x \in {y \in S : y < lim}}), lim, k - 1)
FillDef(G, rk) ==
  LET b == Base(G, rk) IN
  [u \in 0 .. G.n - 1 |-> {v \in u + 1 .. G.n - 1 : v \in Closure(b, b[u], u, G.n)}]

Low(H, n) == TLCEval([u \in 0 .. n - 1 |-> {k \in 0 .. u - 1 : u \in H[k]}])

(* Adjacency arrays (fo, head, tail) describe the relation H *)
ArraysOK(A, H, n) ==
  /\ Len(A.fo) = n + 1 /\ A.fo[1] = 0 /\ A.fo[n + 1] = Len(A.head) /\ Len(A.tail) = Len(A.head)
  /\ \A u \in 0 .. n - 1 :
       LET R == A.fo[u + 1] + 1 .. A.fo[u + 2] IN
       /\ A.fo[u + 1] <= A.fo[u + 2]
       /\ {A.head[i] : i \in R} = H[u]
       /\ \A i \in R : A.tail[i] = u /\ (i + 1 \in R => A.head[i] < A.head[i + 1])

ArcId(A, u, v) ==
  LET S == {i \in A.fo[u + 1] + 1 .. A.fo[u + 2] : A.head[i] = v} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Wt(A, u, v) == LET i == ArcId(A, u, v) IN IF i = 0 THEN INF ELSE A.w[i]

(* elimination tree: parent = lowest upper neighbour, -1 for roots *)
TreeOK(et, H, n) == Len(et) = n /\ \A u \in 0 .. n - 1 : et[u + 1] = (IF H[u] = {} THEN -1 ELSE Least(H[u]))

(* arc lists: fe[i] are exactly the input arcs tail->head, be[i] head->tail  *)
ListsOK(G, rk, A, lists, up) ==
  /\ Len(lists) = Len(A.head)
  /\ \A i \in 1 .. Len(lists) :
       /\ \A j \in 1 .. Len(lists[i]) :
            LET a == lists[i][j] + 1 IN
            /\ a \in Arcs(G)
            /\ IF up THEN rk[G.tail[a] + 1] = A.tail[i] /\ rk[G.head[a] + 1] = A.head[i]
                     ELSE rk[G.head[a] + 1] = A.tail[i] /\ rk[G.tail[a] + 1] = A.head[i]
       /\ Cardinality({lists[i][j] : j \in 1 .. Len(lists[i])}) = Len(lists[i])
RECURSIVE SumLen(_, _)
SumLen(lists, i) == IF i = 0 THEN 0 ELSE Len(lists[i]) + SumLen(lists, i - 1)
AllListed(G, rk, lists, up) ==
  SumLen(lists, Len(lists)) =
    Cardinality({a \in Arcs(G) : IF up THEN rk[G.tail[a] + 1] < rk[G.head[a] + 1] ELSE rk[G.tail[a] + 1] > rk[G.head[a] + 1]})

(* inverted: for every node its lower neighbours, ascending, with arc ids    *)
InvOK(A, inv, n) ==
  /\ Len(inv) = n
  /\ \A u \in 0 .. n - 1 :
       /\ \A j \in 1 .. Len(inv[u + 1]) :
            LET p == inv[u + 1][j] IN
            /\ p[2] + 1 \in 1 .. Len(A.head)
            /\ A.tail[p[2] + 1] = p[1] /\ A.head[p[2] + 1] = u
            /\ (j > 1 => inv[u + 1][j - 1][1] < p[1])
       /\ Len(inv[u + 1]) = Cardinality({i \in 1 .. Len(A.head) : A.head[i] = u})

(* separator tree: seq of cells [p |-> parent index (0 root), nodes, num] *)
(* Anc[c]: the cells above c, c included *)
Ancestors(T) ==
  LET A[c \in 1 .. Len(T)] == IF T[c].p = 0 THEN {c} ELSE {c} \cup A[T[c].p] IN TLCEval([c \in 1 .. Len(T) |-> A[c]])
CellOf(T, n) == TLCEval([u \in 0 .. n - 1 |-> CHOOSE c \in 1 .. Len(T) : \E j \in 1 .. Len(T[c].nodes) : T[c].nodes[j] = u])
SepTreeOK(T, H, n) ==
  /\ \A c \in 1 .. Len(T) :
       /\ (c = 1) = (T[c].p = 0)
       /\ T[c].p < c
       /\ \A j \in 1 .. Len(T[c].nodes) : T[c].nodes[j] \in 0 .. n - 1 /\ (j > 1 => T[c].nodes[j] < T[c].nodes[j - 1])
  /\ \A u \in 0 .. n - 1 : Cardinality({c \in 1 .. Len(T) : \E j \in 1 .. Len(T[c].nodes) : T[c].nodes[j] = u}) = 1
  /\ \E cell \in {CellOf(T, n)} : \E anc \in {Ancestors(T)} :
     /\ \A c \in 1 .. Len(T) : T[c].num = Cardinality({u \in 0 .. n - 1 : c \in anc[cell[u]]})
     /\ \A u \in 0 .. n - 1 : \A v \in H[u] : cell[v] \in anc[cell[u]]

-----------------------------------------------------------------------------
(* Customization.  F and B are weighted arrays for up- and downward arcs.    *)
(* Orig: cheapest input arc between two ranks in the given metric.           *)
OrigUp(G, w, nd, u, v) == ArcWeight(G, w, nd[u + 1], nd[v + 1])
MinOver(S) == IF S = {} THEN INF ELSE Least(S)

(* the recursion that uniquely determines customized weights                 *)
BasicOK(G, w, nd, H, L, F, B) ==
  \A u \in 0 .. G.n - 1 : \A v \in H[u] :
     LET T == {k \in L[u] : v \in H[k]} IN
     /\ Wt(F, u, v) = Min2(OrigUp(G, w, nd, u, v), MinOver({Add(Wt(B, k, u), Wt(F, k, v)) : k \in T}))
     /\ Wt(B, u, v) = Min2(OrigUp(G, w, nd, v, u), MinOver({Add(Wt(B, k, v), Wt(F, k, u)) : k \in T}))

(* unpacking: X.unp[i] = <<>> (input arc) or <<down, up, middle>> with       *)
(* down an arc of B, up an arc of F, both ids 0-based                        *)
UnpackWhere(G, w, nd, F, B, up, Needed(_, _, _)) ==
  LET X == IF up THEN F ELSE B IN
  \A i \in 1 .. Len(X.head) :
     (X.w[i] < INF /\ Needed(IF up THEN X.tail[i] ELSE X.head[i], IF up THEN X.head[i] ELSE X.tail[i], X.w[i])) =>
       LET a == IF up THEN X.tail[i] ELSE X.head[i]
           b == IF up THEN X.head[i] ELSE X.tail[i]
           t == X.unp[i] IN
       IF t = <<>> THEN X.w[i] = OrigUp(G, w, nd, a, b)
       ELSE /\ t[1] + 1 \in 1 .. Len(B.head) /\ t[2] + 1 \in 1 .. Len(F.head)
            /\ B.tail[t[1] + 1] = t[3] /\ F.tail[t[2] + 1] = t[3]
            /\ t[3] < a /\ t[3] < b
            /\ B.head[t[1] + 1] = a /\ F.head[t[2] + 1] = b
            /\ Add(B.w[t[1] + 1], F.w[t[2] + 1]) = X.w[i]

UnpackOK(G, w, nd, F, B, up) == UnpackWhere(G, w, nd, F, B, up, LAMBDA a, b, x : TRUE)

(* arcs that can be finite under some metric *)
UsableOK(G, nd, H, L, up, dn) ==
  \A u \in 0 .. G.n - 1 : \A v \in H[u] :
     LET T == {k \in L[u] : v \in H[k]} IN
     /\ (<<u, v>> \in up) = (\/ \E e \in Out(G, nd[u + 1]) : G.head[e] = nd[v + 1]
                             \/ \E k \in T : <<k, u>> \in dn /\ <<k, v>> \in up)
     /\ (<<u, v>> \in dn) = (\/ \E e \in Out(G, nd[v + 1]) : G.head[e] = nd[u + 1]
                             \/ \E k \in T : <<k, v>> \in dn /\ <<k, u>> \in up)

(* true distances between ranks, from certified rows *)
Dr(M, nd, u, v) == M.ref[M.ri[nd[u + 1] + 1]].d[nd[v + 1] + 1]

(* arcs heavier than the distance are on no shortest path: never unpacked    *)
UnpackShortest(G, M, nd, F, B, up) == UnpackWhere(G, M.w, nd, F, B, up, LAMBDA a, b, x : x = Dr(M, nd, a, b))

(* arcs of X are arcs of the hierarchy *)
SubArrays(X, H, n) ==
  /\ Len(X.fo) = n + 1 /\ X.fo[1] = 0 /\ X.fo[n + 1] = Len(X.head)
  /\ Len(X.tail) = Len(X.head) /\ Len(X.w) = Len(X.head) /\ Len(X.unp) = Len(X.head)
  /\ \A u \in 0 .. n - 1 : X.fo[u + 1] <= X.fo[u + 2] /\
       \A i \in X.fo[u + 1] + 1 .. X.fo[u + 2] : X.tail[i] = u /\ X.head[i] \in H[u] /\ (i < X.fo[u + 2] => X.head[i] < X.head[i + 1])

ExactWeights(X, M, nd, up) ==
  \A i \in 1 .. Len(X.head) :
    X.w[i] = IF up THEN Dr(M, nd, X.tail[i], X.head[i]) ELSE Dr(M, nd, X.head[i], X.tail[i])

(* hierarchies without the arcs that can never be finite before looking at  *)
(* higher nodes lack intermediate triangles: weights are only upper bounds   *)
UpperWeights(X, M, nd, up) ==
  \A i \in 1 .. Len(X.head) :
    X.w[i] >= IF up THEN Dr(M, nd, X.tail[i], X.head[i]) ELSE Dr(M, nd, X.head[i], X.tail[i])

(* upward distances from every node in arrays X: R[u] is a function on 0..n-1 *)
RECURSIVE UpRelax(_, _, _, _)
UpRelax(X, d, k, n) ==
  IF k = n THEN d
  ELSE IF d[k] = INF THEN UpRelax(X, d, k + 1, n)
  ELSE UpRelax(X, TLCEval([v \in 0 .. n - 1 |-> IF v <= k THEN d[v] ELSE Min2(d[v], Add(d[k], Wt(X, k, v)))]), k + 1, n)
UpDist(X, s, n) == UpRelax(X, [v \in 0 .. n - 1 |-> IF v = s THEN 0 ELSE INF], s, n)
MeetsExactly(f, b, d, n) ==
  /\ \A k \in 0 .. n - 1 : Add(f[k], b[k]) >= d
  /\ d = INF \/ \E k \in 0 .. n - 1 : Add(f[k], b[k]) = d
(* up-down distances over F and B are all distances of the metric *)
UpDownExact(F, B, M, nd, n) ==
  \E fd \in {[s \in 0 .. n - 1 |-> UpDist(F, s, n)]} : \E bd \in {[s \in 0 .. n - 1 |-> UpDist(B, s, n)]} :
  \A s, t \in 0 .. n - 1 : MeetsExactly(fd[s], bd[t], Dr(M, nd, s, t), n)
UpDownPair(F, B, M, nd, s, t, n) ==
  \E fd \in {UpDist(F, s, n)} : \E bd \in {UpDist(B, t, n)} : MeetsExactly(fd, bd, Dr(M, nd, s, t), n)
=============================================================================
