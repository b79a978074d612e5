------------------------------ MODULE MetricModel ------------------------------
(* Which of several time-restricted metrics a search may use at a time t: the *)
(* selection made at the start of a query (ranges of every day up to the last *)
(* one reached, kept if they contain the latest arrival, in order of their    *)
(* start, the last one containing the departure first, shrinking ones only)   *)
(* must always offer a metric whose range contains everything between t and   *)
(* the latest arrival -- for all ranges, departures, travel times and times.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS D, K, MAXU
(* days of D ticks, at most K ranges besides the universal one                *)
Big == 1000
Ranges == {r \in [s : 0 .. D - 1, e : 1 .. 2 * D, per : BOOLEAN] : r.s < r.e}
VARIABLES ranges, dep, upper, sel, t, ix
vars == <<ranges, dep, upper, sel, t, ix>>
Latest == dep + upper
EndOfDay == Latest \div D
Inc(r, x) == r.s <= x /\ x < r.e
Cand(R) == {[s |-> r.s + d * D, e |-> r.e + d * D, m |-> r] :
              r \in R, d \in 0 .. EndOfDay}
Usable(R) == {c \in Cand(R) : /\ Inc(c, Latest)
                              /\ c.m.per \/ c.s = c.m.s}
           \cup {[s |-> 0, e |-> Big, m |-> [s |-> 0, e |-> Big, per |-> FALSE]]}
Before(a, b) == a.s < b.s \/ (a.s = b.s /\ a.e < b.e)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : \A y \in S : ~Before(y, x) IN <<x>> \o Sorted(S \ {x})
RECURSIVE Shrink(_, _, _)
Shrink(q, i, d) == IF i > Len(q) THEN <<>>
                   ELSE IF q[i].e - q[i].s < d THEN <<q[i]>> \o Shrink(q, i + 1, q[i].e - q[i].s)
                   ELSE Shrink(q, i + 1, d)
FirstInner(q) == IF \E i \in 1 .. Len(q) : ~Inc(q[i], dep)
                 THEN (CHOOSE i \in 1 .. Len(q) : ~Inc(q[i], dep) /\ \A j \in 1 .. i - 1 : Inc(q[j], dep)) - 1
                 ELSE Len(q)
Selected(q) == LET f == FirstInner(q) IN
               \E k \in {IF f > 1 THEN f - 1 ELSE 0} :
                 \E r \in {SubSeq(q, k + 1, Len(q))} : sel' = Shrink(r, 1, r[1].e - r[1].s + 1)
Init == /\ \E f \in [1 .. K -> Ranges] : ranges = {f[i] : i \in 1 .. K}
        /\ dep \in 0 .. D - 1 /\ upper \in 0 .. MAXU
        /\ sel = <<>> /\ t = -1 /\ ix = 0
Select == /\ sel = <<>>
          /\ \E q \in {Sorted(Usable(ranges))} : Selected(q)
          /\ t' = dep /\ ix' = 1 /\ UNCHANGED <<ranges, dep, upper>>
(* time passes; the metric looked up is the last one of the run of ranges     *)
(* containing t                                                               *)
Lookup(x) == IF Len(sel) = 0 THEN 0
             ELSE LET bad == {i \in 1 .. Len(sel) : ~Inc(sel[i], x)} IN
                  IF bad = {} THEN Len(sel)
                  ELSE LET b == CHOOSE i \in bad : \A j \in bad : i <= j IN IF b = 1 THEN 1 ELSE b - 1
Tick == /\ sel # <<>> /\ t < Latest
        /\ t' = t + 1 /\ ix' = Lookup(t + 1) /\ UNCHANGED <<ranges, dep, upper, sel>>
Next == Select \/ Tick
Spec == Init /\ [][Next]_vars
(* the metric used at t is valid from t to the latest arrival                 *)
Covered == t >= 0 => /\ ix \in 1 .. Len(sel)
                     /\ sel[ix].s <= t /\ Latest < sel[ix].e
(* later metrics are at least as sharp                                        *)
Shrinking == \A i \in 1 .. Len(sel) - 1 : sel[i + 1].e - sel[i + 1].s < sel[i].e - sel[i].s
                                          /\ sel[i].s <= sel[i + 1].s
=============================================================================
