--------------------------- MODULE TimestampModel ---------------------------
(* Vector with lazy reset by time stamps modulo M (timestamped_vector.rs; M  *)
(* is 2^32 there): on wrap-around the data is reset but old stamps stay.     *)
EXTENDS Integers
CONSTANTS N, M, X
I == 1 .. N
VARIABLES data, stamp, cur, abs
vars == <<data, stamp, cur, abs>>
Init == data = [i \in I |-> 0] /\ stamp = [i \in I |-> 0] /\ cur = 0 /\ abs = [i \in I |-> 0]
Reset == /\ cur' = (cur + 1) % M
         /\ data' = IF cur + 1 = M THEN [i \in I |-> 0] ELSE data
         /\ abs' = [i \in I |-> 0] /\ UNCHANGED stamp
Set(i, x) == data' = [data EXCEPT ![i] = x] /\ stamp' = [stamp EXCEPT ![i] = cur] /\ abs' = [abs EXCEPT ![i] = x] /\ UNCHANGED cur
(* access through a mutable reference without writing *)
Touch(i) == /\ stamp' = [stamp EXCEPT ![i] = cur]
            /\ data' = IF stamp[i] # cur THEN [data EXCEPT ![i] = 0] ELSE data
            /\ UNCHANGED <<cur, abs>>
Next == Reset \/ \E i \in I : Touch(i) \/ \E x \in X : Set(i, x)
Spec == Init /\ [][Next]_vars
Read(i) == IF stamp[i] = cur THEN data[i] ELSE 0
Refines == \A i \in I : Read(i) = abs[i]
=============================================================================
