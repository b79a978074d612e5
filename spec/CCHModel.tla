------------------------------ MODULE CCHModel ------------------------------
(* Hierarchy construction and customization as the implementation runs it:   *)
(* tasks are nodes; a node is customized once everything below it in the     *)
(* elimination tree is (basic phase, bottom-up), then once everything above  *)
(* it is (perfect phase, top-down).  TLC explores every schedule of these    *)
(* tasks on every graph and metric up to the bounds.  Node = rank (all       *)
(* orders are covered, since all graphs are).                                *)
EXTENDS CCH
CONSTANTS N, MAXA, WEIGHTS
VARIABLES w, H, F, B, done, phase, FB, BB
vars == <<w, H, F, B, done, phase, FB, BB>>

V == 0 .. N - 1
Pairs == {p \in V \X V : p[1] # p[2]}
\* all arc weight assignments with at most MAXA finite arcs
Metrics == {f \in [Pairs -> WEIGHTS \cup {INF}] : Cardinality({p \in Pairs : f[p] # INF}) <= MAXA}

Adjacent(f) == [u \in V |-> {v \in V : v # u /\ (f[<<u, v>>] # INF \/ f[<<v, u>>] # INF)}]
UpAdj(f) == TLCEval([u \in V |-> {v \in u + 1 .. N - 1 : f[<<u, v>>] # INF \/ f[<<v, u>>] # INF}])
L(u) == {k \in V : k < u /\ u \in H[k]}
Parent(u) == IF H[u] = {} THEN -1 ELSE Least(H[u])
RECURSIVE IsAbove(_, _)
IsAbove(a, u) == IF u = -1 THEN FALSE ELSE IF u = a THEN TRUE ELSE IsAbove(a, Parent(u))
Desc(u) == {x \in V : x # u /\ IsAbove(u, x)}
AncOf(u) == {x \in V : x # u /\ IsAbove(x, u)}

Init ==
  /\ w \in Metrics
  /\ H = Elim(UpAdj(w), 0, N)
  /\ F = [p \in Pairs |-> INF] /\ B = F /\ FB = F /\ BB = F
  /\ done = {} /\ phase = "basic"

Arcs1(u) == {<<u, v>> : v \in H[u]}
(* basic task of node u: respect the metric, relax all lower triangles *)
BasicTask(u) ==
  /\ phase = "basic" /\ u \notin done /\ Desc(u) \subseteq done
  /\ F' = [p \in Pairs |-> IF p \in Arcs1(u)
             THEN Min2(w[p], MinOver({Add(B[<<k, u>>], F[<<k, p[2]>>]) : k \in {x \in L(u) : p[2] \in H[x]}})) ELSE F[p]]
  /\ B' = [p \in Pairs |-> IF p \in Arcs1(u)
             THEN Min2(w[<<p[2], u>>], MinOver({Add(B[<<k, p[2]>>], F[<<k, u>>]) : k \in {x \in L(u) : p[2] \in H[x]}})) ELSE B[p]]
  /\ done' = done \cup {u}
  /\ UNCHANGED <<w, H, phase, FB, BB>>
StartPerfect ==
  /\ phase = "basic" /\ done = V
  /\ phase' = "perfect" /\ done' = {} /\ FB' = F /\ BB' = B
  /\ UNCHANGED <<w, H, F, B>>

(* perfect task of node u: relax, in place and in array order, for every     *)
(* pair (v, x) of upper neighbours the intermediate and the upper triangle   *)
RECURSIVE Relax(_, _, _, _)
Relax(f, b, u, todo) ==
  IF todo = {} THEN <<f, b>>
  ELSE LET p == CHOOSE q \in todo : \A r \in todo : q[1] < r[1] \/ (q[1] = r[1] /\ q[2] <= r[2])
           v == p[1]  x == p[2]
           f1 == [f EXCEPT ![<<u, x>>] = Min2(@, Add(f[<<u, v>>], f[<<v, x>>]))]
           f2 == [f1 EXCEPT ![<<u, v>>] = Min2(@, Add(f1[<<u, x>>], b[<<v, x>>]))]
           b1 == [b EXCEPT ![<<u, x>>] = Min2(@, Add(b[<<u, v>>], b[<<v, x>>]))]
           b2 == [b1 EXCEPT ![<<u, v>>] = Min2(@, Add(b1[<<u, x>>], f2[<<v, x>>]))]
       IN Relax(TLCEval(f2), TLCEval(b2), u, todo \ {p})
PerfectTask(u) ==
  /\ phase = "perfect" /\ u \notin done /\ AncOf(u) \subseteq done
  /\ \E r \in {Relax(F, B, u, {p \in H[u] \X H[u] : p[1] < p[2] /\ p[2] \in H[p[1]]})} : F' = r[1] /\ B' = r[2]
  /\ done' = done \cup {u}
  /\ UNCHANGED <<w, H, phase, FB, BB>>
Next == (\E u \in V : BasicTask(u) \/ PerfectTask(u)) \/ StartPerfect
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* definitions *)
Step(f, S, d) == [v \in V |-> MinOver({d[v]} \cup {Add(d[x], f[<<x, v>>]) : x \in {y \in S : y # v}})]
RECURSIVE Iter(_, _, _, _)
Iter(f, S, d, k) == IF k = 0 THEN d ELSE Iter(f, S, TLCEval(Step(f, S, d)), k - 1)
(* shortest u-v walk whose interior nodes lie in S *)
Via(f, S, u, v) == Iter(f, S \cup {u}, [x \in V |-> IF x = u THEN 0 ELSE INF], N)[v]
Below2(u, v) == {x \in V : x < u /\ x < v}

(* fill-in is the path definition *)
FillOK == phase = "basic" /\ done = {} =>
  LET b == Adjacent(w) IN \A u \in V : H[u] = {v \in V : v > u /\ v \in Closure(b, b[u], u, N)}
(* what two tasks that may run at the same time read and write is disjoint:  *)
(* a basic task reads arcs of nodes below it, a perfect task of nodes above  *)
RaceFree == \A u \in V : L(u) \subseteq Desc(u) /\ H[u] \subseteq AncOf(u)
(* customized weights have the length of the restricted shortest path        *)
BasicExact == phase = "basic" =>
  \A u \in done : \A v \in H[u] : F[<<u, v>>] = Via(w, Below2(u, v), u, v) /\ B[<<u, v>>] = Via(w, Below2(u, v), v, u)
PerfectExact == phase = "perfect" =>
  \A u \in done : \A v \in H[u] : F[<<u, v>>] = Via(w, V, u, v) /\ B[<<u, v>>] = Via(w, V, v, u)
(* dropping the arcs improved by the perfect phase loses no distance         *)
Reduced(f, f0) == [p \in Pairs |-> IF p[2] \in H[p[1]] /\ f[p] = f0[p] THEN f[p] ELSE INF]
Lossless == phase = "perfect" /\ done = V =>
  LET rf == Reduced(F, FB)  rb == Reduced(B, BB) IN
  \A s, t \in V : s # t =>
    LET up(x) == IF x = s THEN 0 ELSE Via([p \in Pairs |-> IF p[1] < p[2] THEN rf[p] ELSE INF], V, s, x)
        dn(x) == IF x = t THEN 0 ELSE Via([p \in Pairs |-> IF p[1] < p[2] THEN rb[p] ELSE INF], V, t, x) IN
    MinOver({Add(up(x), dn(x)) : x \in V}) = Via(w, V, s, t)
=============================================================================
