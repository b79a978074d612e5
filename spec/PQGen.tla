-------------------------------- MODULE PQGen --------------------------------
(* All legal operation sequences of length DEPTH on the abstract priority    *)
(* queue with three ids and two keys; printed for replay into the real one.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS DEPTH
Ids == 0 .. 2
Keys == 0 .. 1
VARIABLES m, h
vars == <<m, h>>
Init == m = [i \in Ids |-> -1] /\ h = <<>>
Rec(o, i, k) == h' = Append(h, <<o, i, k>>)
In(i) == m[i] # -1
Some == \E i \in Ids : In(i)
Set(i, k) == m' = [m EXCEPT ![i] = k]
Next ==
  /\ Len(h) < DEPTH
  /\ \/ \E i \in Ids, k \in Keys :
          \/ ~In(i) /\ Set(i, k) /\ Rec("push", i, k)
          \/ In(i) /\ k <= m[i] /\ Set(i, k) /\ Rec("dec", i, k)
          \/ In(i) /\ k >= m[i] /\ Set(i, k) /\ Rec("inc", i, k)
          \/ In(i) /\ Set(i, k) /\ Rec("upd", i, k)
          \/ k = 0 /\ In(i) /\ UNCHANGED m /\ Rec("pushu", i, k)
     \/ \E i \in Ids : (IF Some THEN In(i) /\ \A j \in Ids : In(j) => m[i] <= m[j] ELSE i = 0)
          /\ Set(i, -1) /\ h' = Append(h, <<"pop", 0, 0>>)
     \/ Some /\ m' = [i \in Ids |-> -1] /\ (Rec("clear", 0, 0) \/ Rec("drain", 0, 0))
  /\ (Len(h') = DEPTH => PrintT("BEH " \o ToJson(h')))
Spec == Init /\ [][Next]_vars
=============================================================================
