----------------------------- MODULE DataTrace -----------------------------
(* Data structures as abstract state machines; the recorded operations of    *)
(* the real ones, with everything they answered, must be behaviours of them. *)
(*   st   the abstract value of the structure under test                     *)
EXTENDS TraceBase, FiniteSets

VARIABLES st
vars == <<ep, l, st>>

Init == TBInit /\ st = <<>>

-----------------------------------------------------------------------------
(* Indexed priority queue: a partial map from ids to keys (-1: absent).      *)
PQNew == Is("pq.new") /\ st' = [i \in 0 .. Ev.n - 1 |-> -1]
Ids == {i \in DOMAIN st : st[i] # -1}
Minimal(i) == i \in Ids /\ \A j \in Ids : st[i] <= st[j]
(* what can be observed after every operation *)
Obs(s) ==
  LET I == {i \in DOMAIN s : s[i] # -1} IN
  /\ Ev.len = Cardinality(I)
  /\ Ev.empty = (I = {})
  /\ \A i \in DOMAIN s : Ev.has[i + 1] = (s[i] # -1) /\ Ev.get[i + 1] = s[i]
  /\ {<<Ev.elems[j][1], Ev.elems[j][2]>> : j \in 1 .. Len(Ev.elems)} = {<<i, s[i]>> : i \in I}
  /\ Len(Ev.elems) = Cardinality(I)
  /\ IF I = {} THEN Ev.peek = <<>> ELSE Ev.peek[1] \in I /\ Ev.peek[2] = s[Ev.peek[1]] /\ \A j \in I : Ev.peek[2] <= s[j]
PQPush == Is("pq.push") /\ st[Ev.id] = -1 /\ st' = [st EXCEPT ![Ev.id] = Ev.key]
PQPushUnless == Is("pq.pushu") /\ st' = (IF st[Ev.id] = -1 THEN [st EXCEPT ![Ev.id] = Ev.key] ELSE st)
PQPop ==
  /\ Is("pq.pop")
  /\ IF Ids = {} THEN Ev.res = <<>> /\ UNCHANGED st
     ELSE Len(Ev.res) = 2 /\ Minimal(Ev.res[1]) /\ Ev.res[2] = st[Ev.res[1]] /\ st' = [st EXCEPT ![Ev.res[1]] = -1]
PQDec == Is("pq.dec") /\ st[Ev.id] # -1 /\ Ev.key <= st[Ev.id] /\ st' = [st EXCEPT ![Ev.id] = Ev.key]
PQInc == Is("pq.inc") /\ st[Ev.id] # -1 /\ Ev.key >= st[Ev.id] /\ st' = [st EXCEPT ![Ev.id] = Ev.key]
PQUpd == Is("pq.upd") /\ st[Ev.id] # -1 /\ st' = [st EXCEPT ![Ev.id] = Ev.key]
PQClear == Is("pq.clear") /\ st' = [i \in DOMAIN st |-> -1]
PQDrain ==
  /\ Is("pq.drain")
  /\ Len(Ev.res) = Cardinality(Ids)
  /\ {<<Ev.res[j][1], Ev.res[j][2]>> : j \in 1 .. Len(Ev.res)} = {<<i, st[i]>> : i \in Ids}
  /\ st' = [i \in DOMAIN st |-> -1]
(* several pushes of absent ids, observed once *)
PQFill ==
  /\ Is("pq.fill")
  /\ \E F \in {[i \in {Ev.xs[j][1] : j \in 1 .. Len(Ev.xs)} |-> LET J == {j \in 1 .. Len(Ev.xs) : Ev.xs[j][1] = i} IN IF Cardinality(J) = 1 THEN Ev.xs[CHOOSE j \in J : TRUE][2] ELSE -2]} :
       /\ \A i \in DOMAIN F : st[i] = -1 /\ F[i] # -2
       /\ st' = [i \in DOMAIN st |-> IF i \in DOMAIN F THEN F[i] ELSE st[i]]
PQOp == (PQNew \/ PQFill \/ PQPush \/ PQPushUnless \/ PQPop \/ PQDec \/ PQInc \/ PQUpd \/ PQClear \/ PQDrain) /\ Obs(st')

-----------------------------------------------------------------------------
(* Label heap: a bag of waiting and a bag of popped entries; an entry is     *)
(* [key, tag], only keys are compared.  Entries are unique by tag.           *)
HNew == Is("h.new") /\ st' = [heap |-> {}, popped |-> {}]
Pair(x) == <<x[1], x[2]>>
HPush == Is("h.push") /\ st' = [st EXCEPT !.heap = @ \cup {Pair(Ev.x)}]
HFill == Is("h.fill") /\ st' = [st EXCEPT !.heap = @ \cup {Pair(Ev.xs[j]) : j \in 1 .. Len(Ev.xs)}]
HPop ==
  /\ Is("h.pop")
  /\ IF st.heap = {} THEN Ev.res = <<>> /\ UNCHANGED st
     ELSE /\ Len(Ev.res) = 2 /\ Pair(Ev.res) \in st.heap /\ \A y \in st.heap : y[1] <= Ev.res[1]
          /\ st' = [heap |-> st.heap \ {Pair(Ev.res)}, popped |-> st.popped \cup {Pair(Ev.res)}]
(* keeps what the predicate accepts, waiting or popped *)
Accepts(x) == \A j \in 1 .. Len(Ev.reject) : Ev.reject[j] # x[2]
HRetain == Is("h.retain") /\ st' = [heap |-> {x \in st.heap : Accepts(x)}, popped |-> {x \in st.popped : Accepts(x)}]
HClear == Is("h.clear") /\ st' = [heap |-> {}, popped |-> {}]
HObs(s) ==
  /\ {Pair(Ev.popped[j]) : j \in 1 .. Len(Ev.popped)} = s.popped /\ Len(Ev.popped) = Cardinality(s.popped)
  /\ IF s.heap = {} THEN Ev.peek = <<>> ELSE Pair(Ev.peek) \in s.heap /\ \A y \in s.heap : y[1] <= Ev.peek[1]
HOp == (HNew \/ HFill \/ HPush \/ HPop \/ HRetain \/ HClear) /\ HObs(st')

-----------------------------------------------------------------------------
(* Resettable vectors: a total map with a default.                           *)
VNew == Is("v.new") /\ st' = [def |-> Ev.def, val |-> [i \in 0 .. Ev.n - 1 |-> Ev.def]]
VSet == Is("v.set") /\ st' = [st EXCEPT !.val[Ev.i] = Ev.x]
VReset == Is("v.reset") /\ Ev.times >= 1 /\ st' = [st EXCEPT !.val = [i \in DOMAIN st.val |-> st.def]]
(* reading, also through a mutable reference, does not change anything       *)
VTouch == Is("v.touch") /\ Ev.x = st.val[Ev.i] /\ UNCHANGED st
VObs(s) == Len(Ev.all) = Cardinality(DOMAIN s.val) /\ \A i \in DOMAIN s.val : Ev.all[i + 1] = s.val[i]
VOp == (VNew \/ VSet \/ VReset \/ VTouch) /\ VObs(st')

-----------------------------------------------------------------------------
(* Bit sets                                                                  *)
BNew == Is("b.new") /\ st' = [n |-> Ev.n, s |-> {}]
BSet == Is("b.set") /\ st' = [st EXCEPT !.s = @ \cup {Ev.i}]
BUnset == Is("b.unset") /\ st' = [st EXCEPT !.s = @ \ {Ev.i}]
BUnsetAround == Is("b.unsetall") /\ Ev.word = 64 /\ st' = [st EXCEPT !.s = {x \in @ : (x \div 64) # (Ev.i \div 64)}]
BClear == Is("b.clear") /\ st' = [st EXCEPT !.s = {}]
BSetAll == Is("b.setall") /\ st' = [st EXCEPT !.s = 0 .. st.n - 1]
BObs(s) ==
  /\ {Ev.ones[j] : j \in 1 .. Len(Ev.ones)} = s.s /\ Len(Ev.ones) = Cardinality(s.s)
  /\ (Ev.count # -1 => Ev.count = Cardinality(s.s))
  /\ (Ev.len # -1 => Ev.len = s.n)
  /\ (Ev.iter # <<-1>> => {Ev.iter[j] : j \in 1 .. Len(Ev.iter)} = s.s /\ Len(Ev.iter) = Cardinality(s.s))
BOp == (BNew \/ BSet \/ BUnset \/ BUnsetAround \/ BClear \/ BSetAll) /\ BObs(st')

-----------------------------------------------------------------------------
(* Identifier compaction: E.members ascending, 0-based                       *)
Mem == {E.members[i] : i \in 1 .. Len(E.members)}
Below(k) == Cardinality({i \in 1 .. Len(E.members) : E.members[i] < k})
IdMap ==
  /\ Is("idmap")
  /\ \A i \in 2 .. Len(E.members) : E.members[i - 1] < E.members[i]
  /\ Ev.len = Len(E.members) /\ Ev.empty = (Len(E.members) = 0)
  /\ Len(Ev.at) = Len(E.members) /\ \A i \in 1 .. Len(Ev.at) : Ev.at[i] = i - 1
  /\ Len(Ev.inv) = Len(E.members) /\ \A i \in 1 .. Len(Ev.inv) : Ev.inv[i] = E.members[i]
  /\ \E M \in {Mem} : \A j \in 1 .. Len(Ev.q) :
       LET k == Ev.q[j][1] b == Below(k) IN
       /\ Ev.q[j][2] = (IF k \in M THEN b ELSE -1)
       /\ Ev.q[j][3] = (IF k \in M THEN b ELSE IF b > 0 /\ k < E.size THEN b - 1 ELSE -1)
  /\ UNCHANGED st
(* tails of arcs *)
Tails ==
  /\ Is("tails")
  /\ Len(Ev.t) = E.fo[E.n + 1]
  /\ \A e \in 1 .. Len(Ev.t) : Ev.t[e] \in 0 .. E.n - 1 /\ E.fo[Ev.t[e] + 1] < e /\ e <= E.fo[Ev.t[e] + 2]
  /\ UNCHANGED st
(* external link ids: E.members[r] is the id of rank r, E.dirs[r] the local   *)
(* link of either direction (-1: none)                                       *)
Links ==
  /\ Is("links")
  /\ \A j \in 1 .. Len(Ev.to) : \* <<external id, direction 0|1, answer>>
       LET x == Ev.to[j] R == {r \in 1 .. Len(E.members) : E.members[r] = x[1]} IN
       IF R = {} THEN x[3] = -1 ELSE x[3] = E.dirs[CHOOSE r \in R : TRUE][x[2] + 1]
  /\ Len(Ev.back) = E.arcs
  /\ \A a \in 0 .. E.arcs - 1 : \* <<external id, direction>>
       \E r \in 1 .. Len(E.members) : E.members[r] = Ev.back[a + 1][1] /\ E.dirs[r][Ev.back[a + 1][2] + 1] = a
  /\ UNCHANGED st

Step == PQOp \/ HOp \/ VOp \/ BOp \/ IdMap \/ Tails \/ Links
Next == \/ Step /\ Consume
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
