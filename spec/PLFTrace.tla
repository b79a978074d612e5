------------------------------ MODULE PLFTrace ------------------------------
(* The profile algebra: whatever is returned for an expression takes, at       *)
(* every sampled departure, the value of the expression (PLF.tla), or stays    *)
(* on the promised side of it and within the promised error.                   *)
EXTENDS PLF, TraceBase
VARIABLES win
vars == <<ep, l, win>>
(* win: the intervals handed to the container of pieces so far                *)
Tol == 1
Abs(a) == IF a < 0 THEN -a ELSE a
Val(x, t) == EvalP(E.base, x, t, Day)
Base == l = 1 => \A i \in 1 .. Len(E.base) : WellFormed(E.base[i], Day)

Ev1 ==
  /\ Is("ev")
  /\ Holds(\A i \in 1 .. Len(Ev.c) : Abs(Ev.c[i][2] - Val(Ev.x, Ev.c[i][1])) <= Tol)
  /\ UNCHANGED win
(* the departure for an arrival, between two whole milliseconds               *)
Inv ==
  /\ Is("inv")
  /\ Holds(\A i \in 1 .. Len(Ev.c) :
        /\ Ev.c[i][3] - Ev.c[i][2] <= 2
        /\ Ev.c[i][2] + Val(Ev.x, Ev.c[i][2]) <= Ev.c[i][1] + Tol
        /\ Ev.c[i][3] + Val(Ev.x, Ev.c[i][3]) >= Ev.c[i][1] - Tol)
  /\ UNCHANGED win
MinMax ==
  /\ Is("minmax")
  /\ Holds(\A i \in 1 .. Len(Ev.c) : Ev.lo - Tol <= Val(Ev.x, Ev.c[i]) /\ Val(Ev.x, Ev.c[i]) <= Ev.hi + Tol)
  /\ Ev.all => \E f \in {E.base[Ev.x[2]]} :
       /\ \E i \in 1 .. Len(f) : f[i][2] = Ev.lo
       /\ \E i \in 1 .. Len(f) : f[i][2] = Ev.hi
       /\ \A i \in 1 .. Len(f) : Ev.lo <= f[i][2] /\ f[i][2] <= Ev.hi
       /\ Ev.const = (Ev.lo = Ev.hi)
  /\ UNCHANGED win
Side(v, e) ==
  IF Ev.kind = "exact" THEN Abs(v - e) <= Tol
  ELSE IF Ev.kind = "near" THEN Abs(v - e) <= Ev.err + Tol
  ELSE IF Ev.kind = "lower" THEN v <= e + Tol /\ (Ev.err < 0 \/ v >= e - Ev.err - Tol)
  ELSE IF Ev.kind = "upper" THEN v >= e - Tol /\ (Ev.err < 0 \/ v <= e + Ev.err + Tol)
  ELSE FALSE
(* a function valid for departures from a to b                                *)
Fun ==
  /\ Is("fun")
  /\ Ev.inc /\ Ev.fifo
  /\ IF Ev.cyc THEN /\ Ev.first = 0
                    /\ Ev.n > 1 => Ev.last = Day
                    /\ Abs(Ev.c[1][2] - Ev.c[Len(Ev.c)][2]) <= Tol
     ELSE Ev.n > 1 /\ Ev.first <= Ev.a /\ Ev.last >= Ev.b
  /\ Ev.c[1][1] = Ev.a /\ Ev.c[Len(Ev.c)][1] = Ev.b
  /\ Holds(\A i \in 1 .. Len(Ev.c) : Side(Ev.c[i][2], Val(Ev.x, Ev.c[i][1])))
  /\ UNCHANGED win
(* which of two functions is better from when on                              *)
Better ==
  /\ Is("better")
  /\ Len(Ev.sw) >= 1 /\ Ev.sw[1][1] <= Ev.a
  /\ \A k \in 2 .. Len(Ev.sw) : /\ Ev.sw[k - 1][1] <= Ev.sw[k][1] /\ Ev.sw[k][1] <= Ev.b
                                /\ Ev.sw[k - 1][2] # Ev.sw[k][2]
  /\ Holds(\A i \in 1 .. Len(Ev.c) :
       LET t == Ev.c[i] IN
       IF \E k \in 2 .. Len(Ev.sw) : Abs(t - Ev.sw[k][1]) <= 2 THEN TRUE
       ELSE LET k == CHOOSE k \in 1 .. Len(Ev.sw) : Ev.sw[k][1] <= t /\ (k = Len(Ev.sw) \/ t < Ev.sw[k + 1][1]) IN
            IF Ev.sw[k][2] THEN Val(Ev.x, t) <= Val(Ev.y, t) + Tol ELSE Val(Ev.y, t) <= Val(Ev.x, t) + Tol)
  /\ UNCHANGED win

(* an arc with a report: its value until the report ends, from then on it is   *)
(* waited for or caught up with the prediction until that is met              *)
LiveAt(a, t) ==
  LET v == a[2]  s == a[3]  f == E.base[a[1]]
      pred(u) == BaseAt(f, u, Day) IN
  IF v < 0 THEN pred(t)
  ELSE IF t <= s THEN v
  ELSE IF pred(s) < v THEN (IF v + s - t > pred(t) THEN v + s - t ELSE pred(t))
  ELSE LET S == {s, t} \cup {u \in {f[i][1] + d * Day : i \in 1 .. Len(f), d \in 0 .. 2} : s < u /\ u < t} IN
       IF \E u \in S : pred(u) <= v + u - s THEN pred(t) ELSE v + t - s
RECURSIVE Travel(_, _)
Travel(i, t) == IF i > Len(Ev.arcs) THEN t ELSE Travel(i + 1, t + LiveAt(Ev.arcs[i], t))
Live ==
  /\ Is("live")
  /\ Holds(\A i \in 1 .. Len(Ev.c) :
       /\ Abs(Ev.c[i][3] - LiveAt(Ev.arcs[Ev.c[i][1]], Ev.c[i][2])) <= Tol
       /\ Ev.b[Ev.c[i][1]][1] - Tol <= Ev.c[i][3] /\ Ev.c[i][3] <= Ev.b[Ev.c[i][1]][2] + Tol)
  /\ Holds(\A i \in 1 .. Len(Ev.w) : Abs(Travel(1, Ev.w[i][1]) - Ev.w[i][1] - Ev.w[i][2]) <= Tol)
  /\ UNCHANGED win

Pieces == Is("pieces") /\ win' = <<>>
In(w, x) == \E i \in 1 .. Len(w) : w[i][1] <= x /\ x < w[i][2]
(* what is still missing of an interval: exactly what was not handed in before *)
Missing ==
  /\ Is("missing")
  /\ \A i \in 1 .. Len(Ev.gaps) : Ev.a <= Ev.gaps[i][1] /\ Ev.gaps[i][1] < Ev.gaps[i][2] /\ Ev.gaps[i][2] <= Ev.b
  /\ \A i \in 2 .. Len(Ev.gaps) : Ev.gaps[i - 1][2] <= Ev.gaps[i][1]
  /\ \E S \in {{Ev.a} \cup {win[i][k] : i \in 1 .. Len(win), k \in {1, 2}} \cup {Ev.gaps[i][k] : i \in 1 .. Len(Ev.gaps), k \in {1, 2}}} :
       \A x \in S : Ev.a <= x /\ x < Ev.b => In(Ev.gaps, x) = ~In(win, x)
  /\ win' = Append(win, <<Ev.a, Ev.b>>)

Init == TBInit /\ win = <<>>
Step == Ev1 \/ Inv \/ MinMax \/ Fun \/ Better \/ Live \/ Pieces \/ Missing
Next == \/ Base /\ Step /\ Consume
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
