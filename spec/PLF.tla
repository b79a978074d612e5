--------------------------------- MODULE PLF ---------------------------------
(* Periodic travel time profiles over whole milliseconds with integral slopes *)
(* (>= -1: first in, first out) and expressions over them: one after the other *)
(* (l), the better one (m), an update in force for some time (u).  The value  *)
(* of every expression at every whole millisecond is a whole number.          *)
EXTENDS Integers, Sequences
Day == 86400000
Last(f, t) == CHOOSE k \in 1 .. Len(f) : f[k][1] <= t /\ (k = Len(f) \/ t < f[k + 1][1])
Min(a, b) == IF a <= b THEN a ELSE b
(* base profile f (a single point is a constant, else closed at 0 and P)      *)
BaseAt(f, t, p) ==
  IF Len(f) = 1 THEN f[1][2]
  ELSE LET k == Min(Last(f, t % p), Len(f) - 1) IN
       f[k][2] + ((f[k + 1][2] - f[k][2]) \div (f[k + 1][1] - f[k][1])) * ((t % p) - f[k][1])
RECURSIVE EvalP(_, _, _, _)
EvalP(base, x, t, p) ==
  IF x[1] = "b" THEN BaseAt(base[x[2]], t, p)
  ELSE IF x[1] = "l" THEN LET v == EvalP(base, x[2], t, p) IN v + EvalP(base, x[3], t + v, p)
  ELSE IF x[1] = "m" THEN Min(EvalP(base, x[2], t, p), EvalP(base, x[3], t, p))
  ELSE IF t <= x[5] THEN x[4] + ((EvalP(base, x[2], x[5], p) - x[4]) \div (x[5] - x[3])) * (t - x[3])
  ELSE EvalP(base, x[2], t, p)
WellFormed(f, p) ==
  /\ Len(f) >= 1 /\ f[1][1] = 0
  /\ Len(f) > 1 => f[Len(f)][1] = p /\ f[Len(f)][2] = f[1][2]
  /\ \A i \in 1 .. Len(f) - 1 :
       /\ f[i][1] < f[i + 1][1]
       /\ (f[i + 1][2] - f[i][2]) % (f[i + 1][1] - f[i][1]) = 0
       /\ f[i + 1][2] - f[i][2] >= f[i][1] - f[i + 1][1]
  /\ \A i \in 1 .. Len(f) : f[i][2] >= 0
=============================================================================
