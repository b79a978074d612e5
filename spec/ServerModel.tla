----------------------------- MODULE ServerModel -----------------------------
(* The design of the route service: requests are handled one after the other  *)
(* by an engine, every weight update is prepared by a thread of its own from  *)
(* the initial weights and installed under the lock the engine holds while it *)
(* answers.  The network is a chain of `Hops` hops with `Par` parallel links  *)
(* each.  Checked: every answer is exact for one complete metric in force     *)
(* between the call and the return, an update is installed as it was          *)
(* described, and installed metrics stay until the next installation.         *)
(* Locked = FALSE (installation link by link without the lock) and            *)
(* OwnWeights = FALSE (path unpacked with the initial weights) are designs    *)
(* TLC refutes.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Hops, Par, Weights, NU, NQ, Locked, OwnWeights

Link == (1 .. Hops) \X (1 .. Par)
Metric == [Link -> Weights]
Update == UNION {[D -> Weights] : D \in SUBSET Link}

VARIABLES upd, base, cur, custom, lock, upc, uw, uleft, qpc, qd, qp, inforce, seen, ans, left

vars == <<upd, base, cur, custom, lock, upc, uw, uleft, qpc, qd, qp, inforce, seen, ans, left>>

Applied(k) == IF k = 0 THEN base ELSE [e \in Link |-> IF e \in DOMAIN upd[k] THEN upd[k][e] ELSE base[e]]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Total(_, _)
Total(w, h) == IF h > Hops THEN 0 ELSE MinOf({w[<<h, p>>] : p \in 1 .. Par}) + Total(w, h + 1)
RECURSIVE Walk(_, _, _)
Walk(w, c, h) == IF h > Hops THEN 0 ELSE w[<<h, c[h]>>] + Walk(w, c, h + 1)

Init ==
  /\ base \in Metric
  /\ upd \in [1 .. NU -> Update]
  /\ cur = base            \* weights paths are unpacked with, if the service keeps its own
  /\ custom = base         \* the installed hierarchy
  /\ lock = "free"
  /\ upc = [k \in 1 .. NU |-> "new"]
  /\ uw = [k \in 1 .. NU |-> base]
  /\ uleft = [k \in 1 .. NU |-> {}]
  /\ qpc = "idle" /\ qd = 0 /\ qp = <<>>
  /\ inforce = 0 /\ seen = {} /\ ans = <<>> /\ left = NQ

(* a thread prepares update k *)
Submit(k) ==
  /\ upc[k] = "new" /\ \A j \in 1 .. k - 1 : upc[j] # "new"
  /\ upc' = [upc EXCEPT ![k] = "prepare"]
  /\ uleft' = [uleft EXCEPT ![k] = DOMAIN upd[k]]
  /\ UNCHANGED <<upd, base, cur, custom, lock, uw, qpc, qd, qp, inforce, seen, ans, left>>
Prepare(k) ==
  /\ upc[k] = "prepare"
  /\ IF uleft[k] = {}
     THEN /\ upc' = [upc EXCEPT ![k] = "install"]
          /\ uleft' = [uleft EXCEPT ![k] = Link]
          /\ UNCHANGED uw
     ELSE \E e \in uleft[k] :
            /\ uw' = [uw EXCEPT ![k][e] = upd[k][e]]
            /\ uleft' = [uleft EXCEPT ![k] = @ \ {e}]
            /\ UNCHANGED upc
  /\ UNCHANGED <<upd, base, cur, custom, lock, qpc, qd, qp, inforce, seen, ans, left>>
Acquire(k) ==
  /\ Locked /\ upc[k] = "install" /\ lock = "free"
  /\ lock' = "update" /\ upc' = [upc EXCEPT ![k] = "copy"]
  /\ UNCHANGED <<upd, base, cur, custom, uw, uleft, qpc, qd, qp, inforce, seen, ans, left>>
Copy(k) ==
  /\ upc[k] = IF Locked THEN "copy" ELSE "install"
  /\ \E e \in uleft[k] :
       /\ custom' = [custom EXCEPT ![e] = uw[k][e]]
       /\ cur' = [cur EXCEPT ![e] = IF OwnWeights THEN uw[k][e] ELSE @]
       /\ uleft' = [uleft EXCEPT ![k] = @ \ {e}]
       /\ IF uleft[k] = {e}
          THEN /\ upc' = [upc EXCEPT ![k] = "done"]
               /\ inforce' = k
               /\ seen' = IF qpc = "idle" THEN seen ELSE seen \cup {k}
               /\ lock' = IF Locked THEN "free" ELSE lock
          ELSE UNCHANGED <<upc, inforce, seen, lock>>
  /\ UNCHANGED <<upd, base, uw, qpc, qd, qp, ans, left>>

(* one request *)
Call ==
  /\ qpc = "idle" /\ left > 0
  /\ left' = left - 1 /\ qpc' = "called" /\ seen' = {inforce}
  /\ UNCHANGED <<upd, base, cur, custom, lock, upc, uw, uleft, qd, qp, inforce, ans>>
Enter ==
  /\ qpc = "called" /\ (Locked => lock = "free")
  /\ lock' = (IF Locked THEN "query" ELSE lock)
  /\ qpc' = "dist" /\ qd' = 0 /\ qp' = <<>>
  /\ UNCHANGED <<upd, base, cur, custom, upc, uw, uleft, inforce, seen, ans, left>>
(* the search looks at hop after hop *)
Search ==
  /\ qpc = "dist"
  /\ \E h \in {Len(qp) + 1} :
     IF h > Hops THEN qpc' = "path" /\ qp' = <<>> /\ UNCHANGED qd
     ELSE /\ qd' = qd + MinOf({custom[<<h, p>>] : p \in 1 .. Par})
          /\ qp' = Append(qp, 0) /\ UNCHANGED qpc
  /\ UNCHANGED <<upd, base, cur, custom, lock, upc, uw, uleft, inforce, seen, ans, left>>
Unpack ==
  /\ qpc = "path"
  /\ \E h \in {Len(qp) + 1} :
     IF h > Hops
     THEN /\ qpc' = "idle" /\ ans' = Append(ans, [d |-> qd, p |-> qp, seen |-> seen])
          /\ lock' = (IF Locked THEN "free" ELSE lock) /\ UNCHANGED qp
     ELSE /\ \E p \in {x \in 1 .. Par : \A y \in 1 .. Par : cur[<<h, x>>] < cur[<<h, y>>] \/ (cur[<<h, x>>] = cur[<<h, y>>] /\ x <= y)} : qp' = Append(qp, p)
          /\ UNCHANGED <<qpc, ans, lock>>
  /\ UNCHANGED <<upd, base, cur, custom, upc, uw, uleft, qd, inforce, seen, left>>

Next == Call \/ Enter \/ Search \/ Unpack \/ \E k \in 1 .. NU : Submit(k) \/ Prepare(k) \/ Acquire(k) \/ Copy(k)
Spec == Init /\ [][Next]_vars

(* -- properties -------------------------------------------------------------- *)
Exact(a) == \E k \in a.seen : a.d = Total(Applied(k), 1) /\ Walk(Applied(k), a.p, 1) = a.d
AnswersExact == \A i \in 1 .. Len(ans) : Exact(ans[i])
Installed == (Locked /\ \A k \in 1 .. NU : upc[k] # "copy") => custom = Applied(inforce)
==============================================================================
