----------------------------- MODULE ServerTrace -----------------------------
(* The route service.  Its state is the metric in force and the set of       *)
(* updates which were submitted but are not in force yet; an update goes into *)
(* force at some time after its submission, once, and replaces the metric in  *)
(* force.  A question is answered with the metric in force at some time       *)
(* between call and return.  The moments of installation are not observable:  *)
(* `poss` is the set of all states the service may be in, given the answers   *)
(* it has given (metric 0 is the initial one, k the one of update k).         *)
EXTENDS Graphs, TraceBase

VARIABLES poss, open
vars == <<ep, l, poss, open>>

Metric(k) == E.metrics[k + 1]
Wk(k) == Metric(k).w
Dk(k, s, t) == LET m == Metric(k) IN m.ref[m.ri[s + 1]].d[t + 1]

(* an update applies to the initial metric, later entries win *)
RECURSIVE Apply(_, _, _)
Apply(w, u, i) ==
  IF i > Len(u) THEN w
  ELSE LET a == IF u[i][1] < 0 THEN -1 ELSE E.links[u[i][1] + 1][IF u[i][2] = 1 THEN 1 ELSE 2]
       IN Apply(IF a < 0 THEN w ELSE [w EXCEPT ![a + 1] = IF u[i][3] < 0 THEN INF ELSE u[i][3]], u, i + 1)

Begin ==
  /\ Is("begin")
  /\ \A k \in 0 .. Len(E.updates) :
       LET m == Metric(k) IN
       /\ k > 0 => m.w = Apply(Wk(0), E.updates[k], 1)
       /\ \A i \in 1 .. Len(m.ref) : /\ CertOK(E, m.w, m.ref[i])
                                     /\ m.ri[m.ref[i].s + 1] = i
  /\ poss' = {<<0, {}>>} /\ open' = <<>>

(* states reachable by installing pending updates *)
Reach(P) == P \cup UNION {UNION {{<<j, Y>> : j \in x[2] \ Y} : Y \in SUBSET x[2]} : x \in P}
InForce(P) == {x[1] : x \in P}

(* -- answers under one metric ---------------------------------------------- *)
GeoOK(k, c, r) ==
  LET d == Dk(k, c.s, c.t) IN
  IF d = INF THEN r.d = -1 /\ Len(r.path) = 0
  ELSE r.d = d /\ PathOK(E, Wk(k), c.s, c.t, r.path, d)

RECURSIVE LinkSum(_, _, _, _)
LinkSum(k, p, i, last) == IF i > last THEN 0 ELSE Add(Wk(k)[p[i][3] + 1], LinkSum(k, p, i + 1, last))
(* the share of the first and the last link *)
Part(k, x) == IF x[3] = 0 THEN 0 ELSE IF Wk(k)[x[4] + 1] = INF THEN INF ELSE (x[3] * Wk(k)[x[4] + 1]) \div 8
HereOK(k, c, r) ==
  IF c.from[4] < 0 \/ c.to[4] < 0 THEN r.d = -1
  ELSE LET s == E.head[c.from[4] + 1]
           t == E.tail[c.to[4] + 1]
           d == Dk(k, s, t)
           total == Add(d, Add(Part(k, c.from), Part(k, c.to)))
       IN IF total = INF THEN r.d = -1
          ELSE /\ r.d = total
               /\ Len(r.path) >= 2
               /\ r.path[1] = <<c.from[1], c.from[2], c.from[4]>>
               /\ r.path[Len(r.path)] = <<c.to[1], c.to[2], c.to[4]>>
               /\ \A i \in 1 .. Len(r.path) : r.path[i][3] >= 0
               /\ LET mid == 2 .. Len(r.path) - 1 IN
                  IF mid = {} THEN s = t /\ d = 0
                  ELSE /\ E.tail[r.path[2][3] + 1] = s
                       /\ E.head[r.path[Len(r.path) - 1][3] + 1] = t
                       /\ \A i \in mid \ {2} : E.tail[r.path[i][3] + 1] = E.head[r.path[i - 1][3] + 1]
                       /\ LinkSum(k, r.path, 2, Len(r.path) - 1) = d
AnswerOK(k, c, r) == IF c.kind = "geo" THEN GeoOK(k, c, r) ELSE HereOK(k, c, r)

(* -- the history ------------------------------------------------------------ *)
(* what an open question may have seen: everything in force since its call *)
Spread(P, o) == [i \in 1 .. Len(o) |-> [o[i] EXCEPT !.seen = @ \cup InForce(Reach(P)), !.alone = @ /\ Len(o) = 1]]
Submit ==
  /\ Is("submit")
  /\ \E P \in {{<<x[1], x[2] \cup {Ev.u}>> : x \in poss}} :
       poss' = P /\ open' = Spread(P, open)
Submitted == Is("submitted") /\ Ev.status = 200 /\ UNCHANGED <<poss, open>>
Call ==
  /\ Is("call")
  /\ open' = Spread(poss, Append(open, [c |-> Ev.c, q |-> Ev, seen |-> {}, alone |-> TRUE]))
  /\ UNCHANGED poss
Return ==
  /\ Is("ret")
  /\ \E i \in {j \in 1 .. Len(open) : open[j].c = Ev.c} :
       LET o == open[i] IN
       \E ok \in {{k \in o.seen : AnswerOK(k, o.q, Ev)}} :
          /\ ok # {}
          /\ open' = SelectSeq(open, LAMBDA x : x.c # Ev.c)
          /\ poss' = IF o.alone THEN {x \in Reach(poss) : x[1] \in ok} ELSE poss
          /\ poss' # {}
(* a malformed update is refused and has no effect *)
Bad == Is("bad") /\ Ev.status >= 400 /\ Ev.status < 500 /\ UNCHANGED <<poss, open>>

Init == TBInit /\ poss = {} /\ open = <<>>
Next == \/ (Begin \/ Submit \/ Submitted \/ Call \/ Return \/ Bad) /\ Consume
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
