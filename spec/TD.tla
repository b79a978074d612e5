--------------------------------- MODULE TD ---------------------------------
(* Periodic piecewise linear travel times as the library defines them:       *)
(* points [departure, travel time] (all integers, milliseconds); a single    *)
(* point is a constant; the day starts with the first travel time and ends   *)
(* with it; between two points the arrival time is interpolated linearly and *)
(* rounded down.                                                             *)
EXTENDS Graphs, BigNat

P == 86400000
Stored(pts) ==
  IF Len(pts) = 1 THEN <<<<0, pts[1][2]>>>>
  ELSE (IF pts[1][1] # 0 THEN <<<<0, pts[1][2]>>>> ELSE <<>>)
       \o [i \in 1 .. Len(pts) |-> <<pts[i][1], pts[i][2]>>]
       \o (IF pts[Len(pts)][1] # P THEN <<<<P, pts[1][2]>>>> ELSE <<>>)
(* v = floor(arrival at x on the segment a--b) - x *)
InterpOK(a, b, x, v) ==
  LET y0 == a[1] + a[2] dy == b[1] + b[2] - y0 dx == b[1] - a[1] k == v + x - y0 IN
  /\ k >= 0 /\ k <= dy
  /\ BLeq(Mul(k, dx), Mul(x - a[1], dy))
  /\ BLess(Mul(x - a[1], dy), Mul(k + 1, dx))
(* v is the value of the stored profile st at departure t *)
ValueOK(st, t, v) ==
  LET x == t % P IN
  IF Len(st) = 1 THEN v = st[1][2]
  ELSE \E i \in 1 .. Len(st) - 1 : /\ st[i][1] <= x /\ x < st[i + 1][1]
                                   /\ InterpOK(st[i], st[i + 1], x, v)
(* live traffic: the report holds until `soon`, then the travel time returns *)
(* to the prediction as fast as first-in-first-out allows.                   *)
(* p: prediction at t, ps: prediction at soon                                *)
LiveValue(live, soon, t, p, ps) ==
  IF live = -1 THEN p
  ELSE IF t < soon THEN live
  ELSE IF ps < live THEN Max2(Max2(live + soon - t, 0), p)
  ELSE Min2(live + (t - soon), p)
(* pessimistic combination: never below the prediction                       *)
PessValue(live, until, t, p, ps) ==
  IF live = -1 \/ t >= until THEN p
  ELSE Max2(p, Min2(live, ps + (until - t)))
MinTT(st) == LET S == {st[i][2] : i \in 1 .. Len(st)} IN CHOOSE x \in S : \A y \in S : x <= y
MaxTT(st) == LET S == {st[i][2] : i \in 1 .. Len(st)} IN CHOOSE x \in S : \A y \in S : x >= y
=============================================================================
