---------------------------- MODULE DetourTrace ----------------------------
(* Detour detection and traffic-aware routing.  Metric 1 is the smooth       *)
(* (reference) metric, metric 2 the live one, both on the same graph and     *)
(* both with certified distances from every node.                            *)
(* A subpath from position i to position j of a path is too long under the   *)
(* tolerance k/8 when its smooth length exceeds the smooth distance of its   *)
(* ends by more than floor(distance * k / 8).                                *)
EXTENDS TD, TraceBase

VARIABLES loaded

vars == <<ep, l, loaded>>

SW == E.metrics[1].w
LW == E.metrics[2].w
SD(u, v) == E.metrics[1].ref[E.metrics[1].ri[u + 1]].d[v + 1]
LD(u, v) == E.metrics[2].ref[E.metrics[2].ri[u + 1]].d[v + 1]

Load ==
  /\ Is("load")
  /\ \A k \in 1 .. 2 : LET m == E.metrics[k] IN
       \A i \in 1 .. Len(m.ref) : /\ CertOK(E, m.w, m.ref[i])
                                  /\ m.ri[m.ref[i].s + 1] = i
  /\ loaded' = TRUE

The(S) == CHOOSE x \in S : TRUE     \* binds operands by value: The({F(x) : x \in {expr}})
(* prefix lengths of a path: Pre[i] = length up to the i-th node (from 1) *)
RECURSIVE PreUpTo(_, _, _)
PreUpTo(w, p, i) ==
  IF i = 1 THEN <<0>>
  ELSE The({Append(q, Add(q[i - 1], ArcWeight(E, w, p[i - 1], p[i]))) : q \in {PreUpTo(w, p, i - 1)}})
Pre(w, p) == TLCEval(PreUpTo(w, p, Len(p)))

IsWalk(p) == Len(p) >= 1 /\ (\A i \in 1 .. Len(p) : p[i] \in Nodes(E))
             /\ \A i \in 1 .. Len(p) - 1 : ArcWeight(E, SW, p[i], p[i + 1]) < INF
IsSimple(p) == \A i, j \in 1 .. Len(p) : i < j => p[i] # p[j]

(* floor(d * k / 8) without leaving 32 bits *)
Slack(d, k) == (d \div 8) * k + ((d % 8) * k) \div 8
TooLong(p, pre, i, j, k) == pre[j] - pre[i] - SD(p[i], p[j]) > Slack(SD(p[i], p[j]), k)

(* positions (from 0) of the subpaths that are too long: a returning subpath *)
(* is always too long (its ends have distance 0), and where there is one the *)
(* smallest returning ones are reported                                      *)
Cycles(p) == {<<i - 1, j - 1>> : <<i, j>> \in
               {x \in (1 .. Len(p)) \X (1 .. Len(p)) :
                  x[1] < x[2] /\ p[x[1]] = p[x[2]] /\ \A h \in x[1] + 1 .. x[2] - 1 : p[h] # p[x[1]]}}
AllTooLong(p, pre, k) ==
  {<<x[1] - 1, x[2] - 1>> : x \in {y \in (1 .. Len(p)) \X (1 .. Len(p)) :
                                     y[1] < y[2] /\ TooLong(p, pre, y[1], y[2], k)}}
Inside(a, b) == b[1] <= a[1] /\ a[2] <= b[2]
Minimal(S) == {a \in S : \A b \in S : Inside(b, a) => b = a}
Clean(p, k) == IsSimple(p) /\ (\E pre \in {Pre(SW, p)} : AllTooLong(p, pre, k) = {})

AsSet(rs) == {<<rs[i][1], rs[i][2]>> : i \in 1 .. Len(rs)}
Find ==
  /\ Is("find")
  /\ IsWalk(Ev.p)
  /\ LET got == AsSet(Ev.rs) IN
     IF ~IsSimple(Ev.p) THEN Holds(got = Cycles(Ev.p))
     ELSE \E bad \in UNION {{AllTooLong(Ev.p, pre, Ev.eps)} : pre \in {Pre(SW, Ev.p)}} :
            /\ got \subseteq bad
            /\ (got = {}) = (bad = {})
            /\ Minimal(got) = got
            /\ Ev.exact => got = Minimal(bad)
            /\ Cardinality(got) = Len(Ev.rs)
  /\ UNCHANGED loaded

(* replace too long subpaths by shortest ones until none is left *)
Fix ==
  /\ Is("fix")
  /\ IsWalk(Ev.p)
  /\ IF Clean(Ev.p, Ev.eps) THEN Ev.res = "ok"
     ELSE /\ Ev.res = "fixed"
          /\ IsWalk(Ev.q)
          /\ Ev.q[1] = Ev.p[1] /\ Ev.q[Len(Ev.q)] = Ev.p[Len(Ev.p)]
          /\ Clean(Ev.q, Ev.eps)
          /\ PathLen(E, SW, Ev.q) <= PathLen(E, SW, Ev.p)
  /\ UNCHANGED loaded

(* local optimality: the length of the smallest subpath that is not shortest; *)
(* uniformly bounded stretch: the worst ratio of a subpath, in thousandths    *)
(* above one                                                                  *)
RECURSIVE MinOf(_, _)
MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
Local ==
  /\ Is("lo")
  /\ IsWalk(Ev.p) /\ IsSimple(Ev.p)
  /\ \E pre \in {Pre(SW, Ev.p)} :
       LET J == {y \in (1 .. Len(Ev.p)) \X (1 .. Len(Ev.p)) : y[1] < y[2] /\ TooLong(Ev.p, pre, y[1], y[2], 0)}
           Up(y) == ((pre[y[2]] - pre[y[1]] - SD(Ev.p[y[1]], Ev.p[y[2]])) * 1000) \div SD(Ev.p[y[1]], Ev.p[y[2]])
           worst == {Up(y) : y \in J}
       IN /\ Ev.lo = MinOf({pre[y[2]] - pre[y[1]] : y \in J}, pre[Len(pre)])
          /\ Ev.lo2 = Ev.lo
          /\ IF J = {} THEN Ev.ubs = 0
             ELSE LET u == CHOOSE x \in worst : \A z \in worst : z <= x IN Ev.ubs \in {u - 1, u, u + 1}
  /\ UNCHANGED loaded

(* -- traffic-aware routing ------------------------------------------------ *)
(* the live length of the shortest admissible path, by enumeration: simple    *)
(* paths all of whose subpaths are within the tolerance                       *)
Extends(p, pre, k) == LET j == Len(p) IN \A i \in 1 .. j - 1 : ~TooLong(p, pre, i, j, k)
RECURSIVE Best(_, _, _, _, _, _)
RECURSIVE BestOver(_, _, _, _, _, _, _, _)
Best(p, pre, len, t, k, bound) ==
  LET u == p[Len(p)] IN
  IF u = t THEN (IF len < bound THEN len ELSE bound)
  ELSE BestOver(p, pre, len, t, k, bound, E.fo[u + 1] + 1, E.fo[u + 2])
BestOver(p, pre, len, t, k, bound, e, last) ==
  IF e > last THEN bound
  ELSE The({BestOver(p, pre, len, t, k, nb, e + 1, last) : nb \in
         {LET v == E.head[e]
              nl == len + LW[e]
          IN IF \/ \E i \in 1 .. Len(p) : p[i] = v
                \/ LD(v, t) = INF
                \/ nl + LD(v, t) >= bound
             THEN bound
             ELSE The({IF Extends(x[1], x[2], k) THEN Best(x[1], x[2], nl, t, k, bound) ELSE bound : x \in
                    {<<Append(p, v), Append(pre, pre[Len(pre)] + ArcWeight(E, SW, p[Len(p)], v))>>}})}})
Optimum(s, t, k) == Best(<<s>>, <<0>>, 0, t, k, INF)

(* path blocking: exactly the shortest admissible path *)
Block ==
  /\ Is("block")
  /\ \E best \in {Optimum(Ev.s, Ev.t, Ev.eps)} :
       /\ Ev.ok = (best < INF)
       /\ best < INF => Ev.len = best
  /\ UNCHANGED loaded

(* detour blocking: starts with a live-shortest path, every path but the last *)
(* is rejected for a reason, the accepted one is admissible                   *)
Heur ==
  /\ Is("heur")
  /\ LET N == Len(Ev.ps) IN
     /\ \A i \in 1 .. N : /\ IsWalk(Ev.ps[i])
                          /\ Ev.ps[i][1] = Ev.s /\ Ev.ps[i][Len(Ev.ps[i])] = Ev.t
                          /\ Clean(Ev.ps[i], Ev.eps) = (i = N /\ Ev.ok)
     /\ IF LD(Ev.s, Ev.t) = INF THEN N = 0 /\ ~Ev.ok
        ELSE N > 0 /\ PathLen(E, LW, Ev.ps[1]) = LD(Ev.s, Ev.t)
     /\ \A i, j \in 1 .. N : i < j => Ev.ps[i] # Ev.ps[j]
  /\ UNCHANGED loaded

(* path fixing: an admissible path, so not shorter than the optimum *)
Fixing ==
  /\ Is("fixing")
  /\ Ev.ok = (LD(Ev.s, Ev.t) < INF)
  /\ Ev.ok => \E best \in {Optimum(Ev.s, Ev.t, Ev.eps)} : best < INF /\ Ev.len >= best
  /\ UNCHANGED loaded

(* the live length of some smooth-shortest path: dynamic programme over the   *)
(* arcs that are tight in the smooth metric is replaced by enumeration        *)
RECURSIVE SmoothLens(_, _)
SmoothLens(u, t) ==
  IF u = t THEN {0}
  ELSE UNION {{x + ArcWeight(E, LW, u, E.head[e]) : x \in SmoothLens(E.head[e], t)} :
                e \in {a \in Out(E, u) : SD(E.head[a], t) < INF /\ SW[a] + SD(E.head[a], t) = SD(u, t)}}
Base ==
  /\ Is("base")
  /\ Ev.ok = (SD(Ev.s, Ev.t) < INF)
  /\ Ev.ok => Ev.len \in SmoothLens(Ev.s, Ev.t)
  /\ UNCHANGED loaded

(* -- the same with time-dependent live travel times ------------------------ *)
(* profiles with integral slopes, so that whole milliseconds stay whole        *)
PV(pts, t) ==
  IF Len(pts) = 1 THEN pts[1][2]
  ELSE The({LET i == CHOOSE i \in 1 .. Len(st) - 1 : st[i][1] <= t % P /\ t % P < st[i + 1][1]
            IN st[i][2] + ((st[i + 1][2] - st[i][2]) \div (st[i + 1][1] - st[i][1])) * ((t % P) - st[i][1]) : st \in {Stored(pts)}})
V(e, t) ==
  IF E.fnk = 0 \/ E.live[e][1] = -1 THEN PV(E.ttf[e], t)
  ELSE IF t >= E.live[e][2] THEN PV(E.ttf[e], t)
  ELSE PessValue(E.live[e][1], E.live[e][2], t, PV(E.ttf[e], t), PV(E.ttf[e], E.live[e][2]))
ArcOf(u, v) == CHOOSE e \in Out(E, u) : E.head[e] = v
RECURSIVE ArriveFrom(_, _, _)
ArriveFrom(p, i, t) == IF i >= Len(p) THEN t
                       ELSE The({ArriveFrom(p, i + 1, x) : x \in {t + V(ArcOf(p[i], p[i + 1]), t)}})
Arrive(p, t) == ArriveFrom(p, 1, t)
(* earliest arrival over admissible simple paths; k = -1: over all of them     *)
RECURSIVE TBest(_, _, _, _, _, _)
RECURSIVE TBestOver(_, _, _, _, _, _, _, _)
TBest(p, pre, at, t, k, bound) ==
  LET u == p[Len(p)] IN
  IF u = t THEN (IF at < bound THEN at ELSE bound)
  ELSE TBestOver(p, pre, at, t, k, bound, E.fo[u + 1] + 1, E.fo[u + 2])
TBestOver(p, pre, at, t, k, bound, e, last) ==
  IF e > last THEN bound
  ELSE The({TBestOver(p, pre, at, t, k, nb, e + 1, last) : nb \in
         {LET v == E.head[e] IN
          IF (\E i \in 1 .. Len(p) : p[i] = v) \/ SD(v, t) = INF THEN bound
          ELSE The({IF x[3] < bound /\ (k = -1 \/ Extends(x[1], x[2], k))
                    THEN TBest(x[1], x[2], x[3], t, k, bound) ELSE bound : x \in
                 {<<Append(p, v), Append(pre, pre[Len(pre)] + ArcWeight(E, SW, p[Len(p)], v)), at + V(e, at)>>}})}})
TOptimum(s, t, dep, k) == TBest(<<s>>, <<0>>, dep, t, k, INF)

TBlock ==
  /\ Is("tdblock")
  /\ \E best \in {TOptimum(Ev.s, Ev.t, Ev.dep, Ev.eps)} :
       /\ Ev.ok = (best < INF)
       /\ best < INF => Ev.arr = best
  /\ UNCHANGED loaded
THeur ==
  /\ Is("tdheur")
  /\ LET N == Len(Ev.ps) IN
     /\ \A i \in 1 .. N : /\ IsWalk(Ev.ps[i])
                          /\ Ev.ps[i][1] = Ev.s /\ Ev.ps[i][Len(Ev.ps[i])] = Ev.t
                          /\ Clean(Ev.ps[i], Ev.eps) = (i = N /\ Ev.ok)
     /\ IF SD(Ev.s, Ev.t) = INF THEN N = 0 /\ ~Ev.ok
        ELSE N > 0 /\ Arrive(Ev.ps[1], Ev.dep) = TOptimum(Ev.s, Ev.t, Ev.dep, -1)
     /\ \A i, j \in 1 .. N : i < j => Ev.ps[i] # Ev.ps[j]
  /\ UNCHANGED loaded
TFixing ==
  /\ Is("tdfixing")
  /\ Ev.ok = (SD(Ev.s, Ev.t) < INF)
  /\ Ev.ok => \E best \in {TOptimum(Ev.s, Ev.t, Ev.dep, Ev.eps)} : best < INF /\ Ev.dep + Ev.len >= best
  /\ UNCHANGED loaded
RECURSIVE SmoothArrivals(_, _, _)
SmoothArrivals(u, t, at) ==
  IF u = t THEN {at}
  ELSE UNION {SmoothArrivals(E.head[e], t, at + V(e, at)) :
                e \in {a \in Out(E, u) : SD(E.head[a], t) < INF /\ SW[a] + SD(E.head[a], t) = SD(u, t)}}
TBase ==
  /\ Is("tdbase")
  /\ Ev.ok = (SD(Ev.s, Ev.t) < INF)
  /\ Ev.ok => Ev.dep + Ev.len \in SmoothArrivals(Ev.s, Ev.t, Ev.dep)
  /\ UNCHANGED loaded

(* -- the search that avoids forbidden paths -------------------------------- *)
(* Ev.q lists the states of the automaton that recognises walks containing a  *)
(* forbidden path: single nodes and proper prefixes of forbidden paths; Ev.v  *)
(* their certified distances.                                                 *)
AsTuples(f) == {f[i] : i \in 1 .. Len(f)}
StateIndex(q) == TLCEval([x \in AsTuples(q) |-> CHOOSE i \in 1 .. Len(q) : q[i] = x])
Suffix(s, k) == SubSeq(s, k, Len(s))
Blocked ==
  /\ Is("blocked")
  /\ \E X \in {[forb |-> AsTuples(Ev.forb), st |-> StateIndex(Ev.q)]} :
       LET Illegal(w) == \E k \in 1 .. Len(w) : Suffix(w, k) \in X.forb
           Succ(w) == X.st[Suffix(w, CHOOSE k \in 1 .. Len(w) :
                             /\ Suffix(w, k) \in DOMAIN X.st
                             /\ \A h \in 1 .. k - 1 : Suffix(w, h) \notin DOMAIN X.st)]
           N == Len(Ev.q)
           start == X.st[<<Ev.s>>]
       IN Holds(
          /\ \A u \in Nodes(E) : <<u>> \in DOMAIN X.st
          /\ \A f \in X.forb : \A k \in 1 .. Len(f) - 1 : SubSeq(f, 1, k) \in DOMAIN X.st
          /\ Ev.v[start] = 0
          /\ \A i \in 1 .. N : Ev.v[i] < INF =>
               LET u == Ev.q[i][Len(Ev.q[i])] IN
               \A e \in Out(E, u) :
                 LET w == Append(Ev.q[i], E.head[e]) IN
                 Illegal(w) \/ Ev.v[Succ(w)] <= Add(Ev.v[i], SW[e])
          /\ \A i \in 1 .. N : (i # start /\ Ev.v[i] < INF) =>
               LET j == Ev.par[i][1]
                   v == Ev.q[i][Len(Ev.q[i])]
                   w == Append(Ev.q[j], v) IN
               /\ Ev.v[j] < INF /\ Ev.par[j][2] < Ev.par[i][2]
               /\ ~Illegal(w) /\ Succ(w) = i
               /\ Ev.v[i] = Add(Ev.v[j], ArcWeight(E, SW, Ev.q[j][Len(Ev.q[j])], v))
          /\ LET at == {i \in 1 .. N : Ev.q[i][Len(Ev.q[i])] = Ev.t /\ Ev.v[i] < INF}
             IN IF at = {} THEN Ev.d = -1
                ELSE Ev.d = Ev.v[CHOOSE i \in at : \A j \in at : Ev.v[i] <= Ev.v[j]])
  /\ UNCHANGED loaded

Init == TBInit /\ loaded = FALSE
Step == Find \/ Fix \/ Local \/ Block \/ Heur \/ Fixing \/ Base \/ Blocked
        \/ TBlock \/ THeur \/ TFixing \/ TBase
Next == \/ Load /\ Consume
        \/ loaded /\ Step /\ Consume
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
