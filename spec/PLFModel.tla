------------------------------ MODULE PLFModel ------------------------------
(* The profile algebra and the merging of functions known by bounds only, in  *)
(* discrete time: departures 0 .. P - 1, repeated every P.                    *)
(*                                                                            *)
(* Algebra: for all first-in-first-out f, g, h linking is associative, keeps  *)
(* first-in-first-out, respects the pointwise order (so bounds linked with    *)
(* bounds are bounds) and distributes over the pointwise minimum.             *)
(*                                                                            *)
(* Merging: f and g are given by lower and upper bounds; a sweep copies the   *)
(* bounds of the function which dominates, and looks at the exact functions   *)
(* only where the bounds overlap.  The result has to be a pair of bounds of   *)
(* the minimum with a correct record of which one is better.  Strict decides  *)
(* whether an overlap is also merged when the other function than so far is   *)
(* better from its very beginning; without it the bounds may be wrong.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, V, Mode, Strict
VARIABLES f, g, h, fl, fu, gl, gu, t, seg, rec, st
vars == <<f, g, h, fl, fu, gl, gu, t, seg, rec, st>>
T == 0 .. P - 1
Fifo(x) == \A i \in T : x[(i + 1) % P] >= x[i] - 1
Fns == {x \in [T -> 0 .. V] : Fifo(x)}
Link(x, y) == [i \in T |-> x[i] + y[(i + x[i]) % P]]
MinF(x, y) == [i \in T |-> IF x[i] <= y[i] THEN x[i] ELSE y[i]]
Leq(x, y) == \A i \in T : x[i] <= y[i]

Algebra ==
  Mode = "algebra" =>
    /\ Fifo(Link(f, g)) /\ Fifo(MinF(f, g))
    /\ Link(Link(f, g), h) = Link(f, Link(g, h))
    /\ Leq(f, g) => Leq(Link(f, h), Link(g, h)) /\ Leq(Link(h, f), Link(h, g))
    /\ Link(f, MinF(g, h)) = MinF(Link(f, g), Link(f, h))
    /\ Link(MinF(f, g), h) = MinF(Link(f, h), Link(g, h))

(* how the bounds lie at i *)
Class(i) == IF fu[i] <= gl[i] THEN "first" ELSE IF gu[i] <= fl[i] THEN "second" ELSE "overlap"
Zero == [i \in T |-> 0]
Init ==
  /\ t = 0 /\ seg = <<>> /\ rec = <<>> /\ st = <<>>
  /\ IF Mode = "algebra"
     THEN f \in Fns /\ g \in Fns /\ h \in Fns /\ fl = Zero /\ fu = Zero /\ gl = Zero /\ gu = Zero
     ELSE /\ f \in Fns /\ g \in Fns /\ h = Zero
          /\ fl \in {x \in Fns : Leq(x, f)} /\ fu \in {x \in Fns : Leq(f, x)}
          /\ gl \in {x \in Fns : Leq(x, g)} /\ gu \in {x \in Fns : Leq(g, x)}
(* rec: which one is better at every time so far; st: which bounds are taken  *)
Last == IF rec = <<>> THEN "none" ELSE rec[Len(rec)]
Rep(x, n) == [i \in 1 .. n |-> x]
(* a dominated time *)
Dominated ==
  /\ t < P /\ seg = <<>> /\ Class(t) # "overlap"
  /\ rec' = Append(rec, Class(t)) /\ st' = Append(st, Class(t)) /\ t' = t + 1 /\ UNCHANGED seg
(* in an overlap the exact functions are compared; equally good: either one   *)
Overlap ==
  /\ t < P /\ Class(t) = "overlap"
  /\ \E w \in {"first", "second"} :
       /\ (w = "first" => f[t] <= g[t]) /\ (w = "second" => g[t] <= f[t])
       /\ seg' = Append(seg, w)
  /\ t' = t + 1 /\ UNCHANGED <<rec, st>>
(* the end of an overlap: are the bounds merged or those of the last one kept? *)
Close ==
  /\ seg # <<>> /\ (IF t = P THEN TRUE ELSE Class(t) # "overlap")
  /\ LET changes == \E i \in 2 .. Len(seg) : seg[i] # seg[1]
         merge == \/ changes \/ Last = "none"
                  \/ (IF t < P THEN Last # Class(t) ELSE FALSE)
                  \/ ((Strict \/ t = P) /\ Last # seg[1])
     IN st' = st \o Rep(IF merge THEN "merge" ELSE Last, Len(seg))
  /\ rec' = rec \o seg /\ seg' = <<>> /\ UNCHANGED t
Next == Mode = "merge" /\ (Dominated \/ Overlap \/ Close) /\ UNCHANGED <<f, g, h, fl, fu, gl, gu>>
Spec == Init /\ [][Next]_vars
Done == t = P /\ seg = <<>>
Lo(i) == IF st[i + 1] = "first" THEN fl[i] ELSE IF st[i + 1] = "second" THEN gl[i] ELSE MinF(fl, gl)[i]
Hi(i) == IF st[i + 1] = "first" THEN fu[i] ELSE IF st[i + 1] = "second" THEN gu[i] ELSE MinF(fu, gu)[i]
Bounds == Mode = "merge" /\ Done => \A i \in T : Lo(i) <= MinF(f, g)[i] /\ MinF(f, g)[i] <= Hi(i)
Record == Mode = "merge" => \A i \in 1 .. Len(rec) : IF rec[i] = "first" THEN f[i - 1] <= g[i - 1] ELSE g[i - 1] <= f[i - 1]
=============================================================================
