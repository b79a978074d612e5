---------------------------- MODULE CatchupTrace ----------------------------
(* Time-dependent hierarchies over whole-millisecond profiles with integral   *)
(* slopes (PLF.tla): what is reported is the earliest arrival.  Every answer  *)
(* comes with a certificate: arrivals no arc improves, realised by a tree.    *)
EXTENDS PLF, TraceBase
vars == <<ep, l>>
Day1 == 86400000
INF == 2147483647
M == Len(E.tail)
Tol == 1
Abs(a) == IF a < 0 THEN -a ELSE a
Near(a, b) == Abs(a - b) <= Tol
TT(e, t) == BaseAt(E.base[e], t, Day1)
Base == l = 1 => /\ Len(E.base) = M
                 /\ \A i \in 1 .. M : WellFormed(E.base[i], Day1)
Cert(r) ==
  /\ Len(r.arr) = E.n /\ r.arr[r.s + 1] = r.dep
  /\ \A e \in 1 .. M : r.arr[E.tail[e] + 1] # INF =>
       /\ r.arr[E.head[e] + 1] # INF
       /\ r.arr[E.head[e] + 1] <= r.arr[E.tail[e] + 1] + TT(e, r.arr[E.tail[e] + 1])
  /\ \A v \in 1 .. E.n :
       \/ v = r.s + 1 \/ r.arr[v] = INF
       \/ LET e == r.p[v] IN
          /\ e \in 1 .. M /\ E.head[e] = v - 1
          /\ r.arr[E.tail[e] + 1] # INF
          /\ r.arr[v] = r.arr[E.tail[e] + 1] + TT(e, r.arr[E.tail[e] + 1])
          /\ r.o[E.tail[e] + 1] < r.o[v]
(* arrival after travelling along arcs (which start at x), -1 if they do not connect *)
RECURSIVE Travel(_, _, _, _)
Travel(arcs, i, x, t) ==
  IF i > Len(arcs) THEN <<x, t>>
  ELSE IF arcs[i] \in 1 .. M /\ E.tail[arcs[i]] = x THEN Travel(arcs, i + 1, E.head[arcs[i]], t + TT(arcs[i], t))
  ELSE <<-1, -1>>
Query ==
  /\ Is("q")
  /\ Ev.row.s = Ev.s /\ Ev.row.dep = Ev.dep
  /\ Holds(Cert(Ev.row))
  /\ \E a \in {Ev.row.arr[Ev.t + 1]} :
       IF a = INF THEN Ev.d = -1 /\ Len(Ev.path) = 0
       ELSE /\ Near(Ev.d, a - Ev.dep)
            /\ Len(Ev.path) >= 1
            /\ Ev.path[1][1] = Ev.s /\ Near(Ev.path[1][2], Ev.dep)
            /\ Ev.path[Len(Ev.path)][1] = Ev.t /\ Near(Ev.path[Len(Ev.path)][2], a)
            /\ Len(Ev.arcs) = Len(Ev.path) - 1
            /\ Holds(\A i \in 1 .. Len(Ev.arcs) : LET e == Ev.arcs[i] IN
                 /\ e \in 1 .. M /\ E.tail[e] = Ev.path[i][1] /\ E.head[e] = Ev.path[i + 1][1]
                 /\ Near(Ev.path[i + 1][2], Ev.path[i][2] + TT(e, Ev.path[i][2])))
(* the travel times for all departures from a to b                            *)
Prof ==
  /\ Is("prof")
  /\ Ev.inc
  /\ Ev.c[1].x = Ev.a /\ Ev.c[Len(Ev.c)].x = Ev.b
  /\ \A i \in 1 .. Len(Ev.c) : Ev.c[i].row.s = Ev.s /\ Ev.c[i].row.dep = Ev.c[i].x /\ Holds(Cert(Ev.c[i].row))
  /\ IF Ev.c[1].row.arr[Ev.t + 1] = INF THEN Ev.n = 0 /\ Len(Ev.sw) = 0
     ELSE /\ Ev.n >= 1 /\ Ev.beg <= Ev.a /\ Ev.end >= Ev.b
          /\ Ev.paths => Len(Ev.sw) >= 1 /\ Ev.sw[1] <= Ev.a /\ \A k \in 2 .. Len(Ev.sw) : Ev.sw[k - 1] <= Ev.sw[k]
          /\ \A i \in 1 .. Len(Ev.c) : \E q \in {Ev.c[i]} :
               /\ Near(q.v, q.row.arr[Ev.t + 1] - q.x)
               /\ ~Ev.paths
                  \/ (\E k \in 2 .. Len(Ev.sw) : Abs(Ev.sw[k] - q.x) <= 2)
                  \/ Holds(LET z == Travel(q.path, 1, Ev.s, q.x) IN z[1] = Ev.t /\ Near(z[2], q.row.arr[Ev.t + 1]))

Init == TBInit
Step == Query \/ Prof
Next == \/ Base /\ Step /\ Consume
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
