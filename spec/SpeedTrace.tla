----------------------------- MODULE SpeedTrace -----------------------------
(* Link speed estimates (C25).  A journey visits links 1..n in order; fix j  *)
(* is <<link (position in the journey), eighths travelled, time>>, ordered.  *)
(* Between two fixes on different links the time is shared in proportion to  *)
(* free flow times; before the first fix the first movement is extended.     *)
EXTENDS TraceBase, BigNat

vars == <<ep, l>>
Lk(i) == Ev.links[i]       \* <<id, length [mm], speed limit [km/h]>>
NL == Len(Ev.links)
Fx(j) == Ev.fixes[j]
NF == Len(Ev.fixes)
(* free flow time of k eighths of link i in units of 1/4000 ms               *)
FF(i, k) == k * Lk(i)[2] * (1800 \div Lk(i)[3])
RECURSIVE SumFF(_, _)
SumFF(a, b) == IF a > b THEN 0 ELSE FF(a, 8) + SumFF(a + 1, b)
(* stretch j: from fix j to fix j + 1 on a later link                        *)
Total(j) == FF(Fx(j)[1], 8 - Fx(j)[2]) + SumFF(Fx(j)[1] + 1, Fx(j + 1)[1] - 1) + FF(Fx(j + 1)[1], Fx(j + 1)[2])
(* |x - num/den| <= tol, all naturals *)
Near(x, a, b, den, tol) == \* x against a * b / den
  LET lo == IF x > tol THEN x - tol ELSE 0 IN BLeq(Mul(lo, den), Mul(a, b)) /\ BLeq(Mul(a, b), Mul(x + tol, den))
(* entry time of link i *)
EntryOK(i, x) ==
  IF i > 1
  THEN \E j \in {m \in 1 .. NF - 1 : Fx(m)[1] < i /\ i <= Fx(m + 1)[1]} :
         Near(x - Fx(j)[3], Fx(j + 1)[3] - Fx(j)[3], FF(Fx(j)[1], 8 - Fx(j)[2]) + SumFF(Fx(j)[1] + 1, i - 1), Total(j), 4 + i - Fx(j)[1])
  ELSE \* the last of the fixes before any movement, and the next
       \E j \in {CHOOSE m \in 1 .. NF - 1 : /\ \A q \in 1 .. m : Fx(q)[1] = 1 /\ Fx(q)[2] = Fx(1)[2]
                                            /\ (Fx(m + 1)[1] > 1 \/ Fx(m + 1)[2] > Fx(m)[2])} :
         IF Fx(j + 1)[1] = 1
         THEN Near(Fx(j)[3] - x, Fx(j + 1)[3] - Fx(j)[3], Fx(j)[2], Fx(j + 1)[2] - Fx(j)[2], 2)
         ELSE Near(Fx(j)[3] - x, Fx(j + 1)[3] - Fx(j)[3], FF(1, Fx(j)[2]), Total(j), 4)
(* v [1/1000 km/h] * time [ms] = 3600 * length [mm]                           *)
SpeedOK(v, dt, s, tol) == LET lo == IF dt > tol THEN dt - tol ELSE 0 IN
  BLeq(Mul(IF v > 0 THEN v - 1 ELSE 0, lo), Mul(3600, s)) /\ BLeq(Mul(3600, s), Mul(v + 1 + (v \div 100000), dt + tol))
(* without any movement from the first fix on nothing is known               *)
Moving == \E j \in 1 .. NF : Fx(j)[1] > 1 \/ Fx(j)[2] > Fx(1)[2]
(* the last link is not reported when the journey ends at its beginning      *)
Reached == Fx(NF)[2] > 0
(* i: a link without fix, or the first link left after one: its speed is the *)
(* speed limit times the factor of the stretch                               *)
Inner(i) == i < NL /\ IF i = 1 THEN \A j \in 1 .. NF : Fx(j)[1] = 1 => Fx(j)[2] = Fx(1)[2] ELSE \A j \in 1 .. NF : Fx(j)[1] # i
StretchOf(i) == CHOOSE m \in 1 .. NF - 1 : Fx(m)[1] < Fx(m + 1)[1] /\ Fx(m)[1] <= i /\ i < Fx(m + 1)[1]
Covered ==
  /\ Len(Ev.out) = (IF Reached THEN NL ELSE NL - 1)
  /\ \A i \in 1 .. Len(Ev.out) : \E o \in {Ev.out[i]} :
       /\ o[1] = Lk(i)[1]
       /\ EntryOK(i, o[2])
       /\ o[4] >= 0 /\ o[4] <= 1001
       /\ IF i < Len(Ev.out) THEN SpeedOK(o[3], Ev.out[i + 1][2] - o[2], Lk(i)[2], 8 + NL)
          ELSE IF i = NL THEN SpeedOK(o[3], Fx(NF)[3] - o[2], (Lk(i)[2] * Fx(NF)[2]) \div 8, 2)
          ELSE SpeedOK(o[3], Fx(NF)[3] - o[2], Lk(i)[2], 8 + NL)
       /\ Inner(i) => \E j \in {StretchOf(i)} : Near(o[3], Lk(i)[3], Total(j), 4 * (Fx(j + 1)[3] - Fx(j)[3]), 2 + (o[3] \div 100000))
Est ==
  /\ Is("est")
  /\ Holds(IF NL = 0 \/ NF = 0 THEN ~Ev.ok
           ELSE IF ~Moving THEN Ev.ok /\ Ev.out = <<>>
           ELSE Ev.ok /\ Covered)
Done == Finished /\ UNCHANGED vars
Init == TBInit
Next == \/ Consume /\ Est
        \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
