------------------------------- MODULE TDTrace -------------------------------
(* Time-dependent networks: recorded evaluations, bounds and earliest        *)
(* arrival queries must be those of the profiles (TD.tla).                   *)
(* A valuation <<v, p, ps>> of an arc carries the prediction(s) it is made   *)
(* of, so that each can be checked against the profile.                      *)
EXTENDS TD, TraceBase

VARIABLES st, fn
vars == <<ep, l, st, fn>>
(* st: stored profiles by arc; fn: 0 prediction, 1 live, 2 pessimistic       *)
M == Len(E.tail)

Load ==
  /\ Is("load")
  /\ Holds(\A e \in 1 .. M : LET s == Stored(E.ttf[e]) IN
       \A i \in 2 .. Len(s) : s[i - 1][1] < s[i][1] /\ s[i - 1][1] + s[i - 1][2] <= s[i][1] + s[i][2])
  /\ st' = [e \in 1 .. M |-> Stored(E.ttf[e])]
  /\ fn' = Ev.fn
Until(e) == IF fn = 1 THEN E.soon ELSE IF Len(E.live[e]) > 1 THEN E.live[e][2] ELSE 0
FnOK(e, t, c) ==
  /\ ValueOK(st[e], t, c[2])
  /\ IF fn = 0 \/ E.live[e][1] = -1 THEN c[1] = c[2]
     ELSE /\ ValueOK(st[e], Until(e), c[3])
          /\ c[1] = (IF fn = 1 THEN LiveValue(E.live[e][1], E.soon, t, c[2], c[3])
                     ELSE PessValue(E.live[e][1], E.live[e][2], t, c[2], c[3]))
(* evaluations of one arc: Ev.c[i] = <<t, v, p, ps>>, ascending t            *)
Evals ==
  /\ Is("evals")
  /\ Holds(\A i \in 1 .. Len(Ev.c) : FnOK(Ev.e + 1, Ev.c[i][1], <<Ev.c[i][2], Ev.c[i][3], Ev.c[i][4]>>))
  \* never overtaking
  /\ \A i \in 2 .. Len(Ev.c) : Ev.c[i - 1][1] <= Ev.c[i][1] /\ Ev.c[i - 1][1] + Ev.c[i - 1][2] <= Ev.c[i][1] + Ev.c[i][2]
  /\ UNCHANGED <<st, fn>>
Bounds ==
  /\ Is("bounds")
  /\ Ev.lo = MinTT(st[Ev.e + 1]) /\ Ev.hi = MaxTT(st[Ev.e + 1])
  /\ UNCHANGED <<st, fn>>
(* bounds within [a, b): Ev.at are the departures checked (with values): the *)
(* spec requires all break points inside and the two ends to be among them   *)
InRange ==
  /\ Is("range")
  /\ \E S \in {{Ev.at[i][1] : i \in 1 .. Len(Ev.at)}} :
       /\ Ev.a \in S /\ Ev.b - 1 \in S
       /\ \A i \in 1 .. Len(st[Ev.e + 1]) : \A day \in 0 .. 3 :
            LET x == st[Ev.e + 1][i][1] + day * P IN (Ev.a <= x /\ x < Ev.b) => x \in S
  /\ \A i \in 1 .. Len(Ev.at) :
       /\ Holds(ValueOK(st[Ev.e + 1], Ev.at[i][1], Ev.at[i][2]))
       /\ Ev.lo <= Ev.at[i][2] /\ Ev.at[i][2] <= Ev.hi
  /\ Ev.lo >= MinTT(st[Ev.e + 1]) /\ Ev.hi <= MaxTT(st[Ev.e + 1])
  /\ UNCHANGED <<st, fn>>
(* bounds of live profiles over a time interval, at certified sample times   *)
LiveBounds ==
  /\ Is("lbounds")
  /\ \A i \in 1 .. Len(Ev.c) :
       /\ Holds(FnOK(Ev.e + 1, Ev.c[i][1], <<Ev.c[i][2], Ev.c[i][3], Ev.c[i][4]>>))
       /\ Ev.lo <= Ev.c[i][2] /\ Ev.c[i][2] <= Ev.hi
  /\ UNCHANGED <<st, fn>>

(* mean over [x, y), wrapping around midnight: at are all break points inside *)
(* and the two ends.  Half the travel times at both ends of each piece weigh  *)
(* as long as the piece lasts.                                                *)
RECURSIVE Area(_, _, _)
Area(at, i, s) ==
  IF i = Len(at) THEN s
  ELSE Area(at, i + 1, BAdd(s, Mul(at[i][2] + at[i + 1][2], at[i + 1][1] - at[i][1])))
RECURSIVE SumLen(_, _)
SumLen(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i]) + SumLen(s, i + 1)
Average ==
  /\ Is("average")
  /\ Ev.a = Ev.x /\ Ev.b = Ev.y
  /\ \E b \in {IF Ev.y <= Ev.x THEN Ev.y + P ELSE Ev.y} :
       /\ Ev.mono = <<Ev.x, b>>
       /\ \A i \in 1 .. Len(Ev.in) : Ev.in[i][2] = \E d \in {0, P} : Ev.x <= Ev.in[i][1] + d /\ Ev.in[i][1] + d < b
       /\ Ev.at[1][1] = Ev.x /\ Ev.at[Len(Ev.at)][1] = b
       /\ \E S \in {{Ev.at[i][1] : i \in 1 .. Len(Ev.at)}} :
            \A i \in 1 .. Len(st[Ev.e + 1]) : \A day \in 0 .. 1 :
              LET x == st[Ev.e + 1][i][1] + (day * P) IN (Ev.x <= x /\ x < b) => x \in S
       /\ Holds(\A i \in 1 .. Len(Ev.at) : ValueOK(st[Ev.e + 1], Ev.at[i][1], Ev.at[i][2]))
       /\ \A i \in 2 .. Len(Ev.at) : Ev.at[i - 1][1] < Ev.at[i][1]
       /\ \E s \in {Area(Ev.at, 1, <<0, 0>>)} : \E T \in {2 * (b - Ev.x)} :
            /\ BLeq(Mul(Max2(Ev.avg - 1, 0), T), s)
            /\ BLeq(s, Mul(Ev.avg + 2, T))
  /\ UNCHANGED <<st, fn>>
(* when a report stops to apply unchanged, when it ends                       *)
Switch ==
  /\ Is("switch")
  /\ Ev.up = MaxTT(st[Ev.e + 1])
  /\ IF E.live[Ev.e + 1][1] = -1 THEN Ev.sw = -1 /\ Ev.ended = 0
     ELSE LET u == E.live[Ev.e + 1][2] v == E.live[Ev.e + 1][1] IN
          /\ Ev.ended = u /\ Holds(ValueOK(st[Ev.e + 1], u, Ev.ps))
          \* until then catching up with the prediction takes longer than is left
          /\ Ev.sw = Max2(0, u - Max2(0, v - Ev.ps))
  /\ UNCHANGED <<st, fn>>
(* is a report possible at all (-1: no), and slower than the prediction is    *)
(* somewhere in the time it covers                                            *)
Slower ==
  /\ Is("slower")
  /\ E.live[Ev.e + 1][1] # -1 /\ Ev.now < E.live[Ev.e + 1][2]
  /\ \E S \in {{Ev.at[i][1] : i \in 1 .. Len(Ev.at)}} :
       /\ {Ev.now, E.live[Ev.e + 1][2]} \subseteq S
       /\ \A x \in S : Ev.now <= x /\ x <= E.live[Ev.e + 1][2]
       /\ \A i \in 1 .. Len(st[Ev.e + 1]) :
            LET x == st[Ev.e + 1][i][1] IN (Ev.now <= x /\ x < E.live[Ev.e + 1][2]) => x \in S
  /\ Holds(\A i \in 1 .. Len(Ev.at) : ValueOK(st[Ev.e + 1], Ev.at[i][1], Ev.at[i][2]))
  /\ Ev.x = (IF E.live[Ev.e + 1][1] < MinTT(st[Ev.e + 1]) THEN -1
             ELSE IF \E i \in 1 .. Len(Ev.at) : Ev.at[i][2] <= E.live[Ev.e + 1][1] THEN 1 ELSE 0)
  /\ UNCHANGED <<st, fn>>
Shape ==
  /\ Is("shape")
  /\ Ev.cons = Cardinality({e \in 1 .. M : Len(st[e]) = 1})
  /\ Ev.ipps = SumLen(st, 1)
  /\ Len(Ev.links) = E.n
  /\ \A v \in 1 .. E.n :
       /\ {Ev.links[v][i][2] : i \in 1 .. Len(Ev.links[v])} = {e - 1 : e \in {e \in 1 .. M : E.tail[e] = v - 1}}
       /\ \A i \in 1 .. Len(Ev.links[v]) : Ev.links[v][i][1] = E.head[Ev.links[v][i][2] + 1]
       /\ \A i \in 2 .. Len(Ev.links[v]) : Ev.links[v][i - 1][2] < Ev.links[v][i][2]
  /\ UNCHANGED <<st, fn>>
(* all profiles raised to at least 1, replaced by their minimum, or reports   *)
(* below the minimum dropped                                                  *)
ChangedSt(k, s) ==
  CASE k = "zero" -> [i \in 1 .. Len(s) |-> <<s[i][1], Max2(s[i][2], 1)>>]
    [] k = "lower" -> <<<<0, MinTT(s)>>>>
    [] OTHER -> s
ChangedOK(k, s, live, t, c) ==
  /\ ValueOK(s, t, c[2])
  /\ IF fn # 2 \/ live[1] = -1 \/ (k = "fast" /\ live[1] < MinTT(s)) THEN c[1] = c[2]
     ELSE /\ ValueOK(s, live[2], c[3])
          /\ c[1] = PessValue(live[1], live[2], t, c[2], c[3])
Changed ==
  /\ Is("changed")
  /\ \A i \in 1 .. Len(Ev.c) : \E e \in {Ev.c[i][1] + 1} : \E s \in {ChangedSt(Ev.kind, st[e])} :
       Holds(ChangedOK(Ev.kind, s, E.live[e], Ev.c[i][2], <<Ev.c[i][3], Ev.c[i][4], Ev.c[i][5]>>))
  /\ UNCHANGED <<st, fn>>

(* a row certifies earliest arrivals: arr no arc improves, realised by tree p *)
TDCert(r) ==
  /\ Len(r.arr) = E.n /\ r.arr[r.s + 1] = r.dep
  /\ \A e \in 1 .. M :
       r.arr[E.tail[e] + 1] < INF =>
         /\ FnOK(e, r.arr[E.tail[e] + 1], r.c[e])
         /\ r.arr[E.head[e] + 1] <= Add(r.arr[E.tail[e] + 1], r.c[e][1])
  /\ \A v \in 1 .. E.n :
       \/ v = r.s + 1 \/ r.arr[v] = INF
       \/ LET e == r.p[v] IN
          /\ e \in 1 .. M /\ E.head[e] = v - 1
          /\ r.arr[v] = Add(r.arr[E.tail[e] + 1], r.c[e][1])
          /\ r.o[E.tail[e] + 1] < r.o[v]
(* travelling along arcs ids, with valuations pc; the time of arrival        *)
RECURSIVE Travel(_, _, _, _, _)
Travel(path, arcs, pc, i, t) ==
  IF i > Len(arcs) THEN t
  ELSE IF /\ arcs[i] \in 1 .. M /\ E.tail[arcs[i]] = path[i] /\ E.head[arcs[i]] = path[i + 1]
          /\ FnOK(arcs[i], t, pc[i])
       THEN Travel(path, arcs, pc, i + 1, t + pc[i][1])
       ELSE -1
TQuery ==
  /\ Is("tq")
  /\ Holds(TDCert(Ev.row))
  /\ \E a \in {Ev.row.arr[Ev.t + 1]} :
       IF a = INF THEN Ev.d = -1 /\ Len(Ev.path) = 0
       ELSE /\ Ev.d = (IF Ev.abs THEN a ELSE a - Ev.row.dep)
            /\ Len(Ev.path) >= 1 /\ Ev.path[1] = Ev.row.s /\ Ev.path[Len(Ev.path)] = Ev.t
            /\ Len(Ev.arcs) = Len(Ev.path) - 1
            /\ Holds(Travel(Ev.path, Ev.arcs, Ev.pc, 1, Ev.row.dep) = a)
  /\ UNCHANGED <<st, fn>>
(* lower bounds for the remaining travel time to t at node v departing at T  *)
(* a heuristic reports a journey that exists, with the time it takes          *)
HQuery ==
  /\ Is("hq")
  /\ Holds(TDCert(Ev.row))
  /\ \E a \in {Ev.row.arr[Ev.t + 1]} :
       IF a = INF THEN Ev.d = -1 /\ Len(Ev.path) = 0
       ELSE /\ Ev.d >= a - Ev.row.dep
            /\ Len(Ev.path) >= 1 /\ Ev.path[1] = Ev.row.s /\ Ev.path[Len(Ev.path)] = Ev.t
            /\ Len(Ev.arcs) = Len(Ev.path) - 1
            /\ Holds(Travel(Ev.path, Ev.arcs, Ev.pc, 1, Ev.row.dep) = Ev.row.dep + Ev.d)
  /\ UNCHANGED <<st, fn>>
TPot ==
  /\ Is("tpot")
  /\ Holds(TDCert(Ev.row))
  /\ LET a == Ev.row.arr[Ev.t + 1] IN
       IF a = INF THEN Ev.p >= -1 ELSE Ev.p >= 0 /\ Ev.p <= a - Ev.row.dep
  /\ UNCHANGED <<st, fn>>

(* estimates: Ev.probes[i] = <<v, p, p0>> asked for at v at the earliest time *)
(* one can be there (p) and without naming a time (p0); Ev.rows[i] certifies  *)
(* the journeys from there.  Potentials with upper bounds (always = FALSE)    *)
(* have to be right where it matters: on journeys arriving earliest at every  *)
(* node they pass (x: walking back from the target by the tree of row q).     *)
RECURSIVE Earliest(_, _, _)
Earliest(q, row, x) ==
  /\ q.arr[x + 1] = row.arr[x + 1]
  /\ x = q.s \/ Earliest(q, row, E.tail[q.p[x + 1]])
TPots ==
  /\ Is("tpots")
  /\ Holds(TDCert(Ev.row))
  /\ \A i \in 1 .. Len(Ev.probes) :
       \E v \in {Ev.probes[i][1]} : \E q \in {Ev.rows[i]} :
         /\ q.s = v /\ q.dep = Ev.row.arr[v + 1] /\ q.dep < INF
         /\ Holds(TDCert(q))
         /\ \E a \in {q.arr[Ev.t + 1]} :
              \/ a = INF
              \/ ~Ev.always /\ ~Holds(Earliest(q, Ev.row, Ev.t))
              \/ \A k \in {2, 3} : Ev.probes[i][k] >= 0 /\ Ev.probes[i][k] <= a - q.dep
  /\ UNCHANGED <<st, fn>>

Init == TBInit /\ st = <<>> /\ fn = 0
Step == Load \/ Evals \/ Bounds \/ InRange \/ LiveBounds \/ Average \/ Switch \/ Slower \/ Shape \/ Changed \/ TQuery \/ HQuery \/ TPot \/ TPots
Next == \/ Step /\ Consume
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
