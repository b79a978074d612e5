------------------------------ MODULE HeapModel ------------------------------
(* The indexed d-ary heap as implemented (index_heap.rs): an array of        *)
(* entries, an inverse position table, sifting up with swaps and down with a *)
(* hole; it implements the abstract partial map `abs` of DataTrace for every *)
(* sequence of legal operations.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, ARITY
Ids == 0 .. N - 1
Keys == 0 .. K - 1
VARIABLES arr, pos, abs, last
vars == <<arr, pos, abs, last>>
Init == arr = <<>> /\ pos = [i \in Ids |-> 0] /\ abs = [i \in Ids |-> -1] /\ last = <<>>
(* 1-based positions, 0 = invalid *)
Parent(p) == ((p - 2) \div ARITY) + 1
Children(p, n) == {c \in ARITY * (p - 1) + 2 .. ARITY * (p - 1) + ARITY + 1 : c <= n}
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
RECURSIVE Up(_, _, _)
Up(a, q, p) ==
  IF p = 1 \/ a[Parent(p)][2] < a[p][2] THEN <<a, q>>
  ELSE Up(Swap(a, Parent(p), p), [q EXCEPT ![a[p][1]] = Parent(p), ![a[Parent(p)][1]] = p], Parent(p))
(* x is the element in the hole at p *)
RECURSIVE Down(_, _, _, _)
Down(a, q, p, x) ==
  LET C == Children(p, Len(a)) IN
  IF C = {} THEN <<[a EXCEPT ![p] = x], [q EXCEPT ![x[1]] = p]>>
  ELSE LET c == CHOOSE c \in C : \A d \in C : a[c][2] < a[d][2] \/ (a[c][2] = a[d][2] /\ c <= d) IN
       IF a[c][2] >= x[2] THEN <<[a EXCEPT ![p] = x], [q EXCEPT ![x[1]] = p]>>
       ELSE Down([a EXCEPT ![p] = a[c]], [q EXCEPT ![a[c][1]] = p], c, x)
Put(r) == arr' = r[1] /\ pos' = r[2]
Push(i, k) ==
  /\ pos[i] = 0
  /\ Put(Up(Append(arr, <<i, k>>), [pos EXCEPT ![i] = Len(arr) + 1], Len(arr) + 1))
  /\ abs' = [abs EXCEPT ![i] = k] /\ last' = <<>>
Pop ==
  /\ Len(arr) > 0
  /\ LET it == arr[Len(arr)] rest == SubSeq(arr, 1, Len(arr) - 1) IN
     IF rest = <<>> THEN arr' = <<>> /\ pos' = [pos EXCEPT ![it[1]] = 0] /\ last' = it
     ELSE LET top == rest[1] IN
          /\ Put(Down([rest EXCEPT ![1] = it], [[pos EXCEPT ![it[1]] = 1] EXCEPT ![top[1]] = 0], 1, it))
          /\ last' = top
  /\ abs' = [abs EXCEPT ![last'[1]] = -1]
Decrease(i, k) ==
  /\ pos[i] # 0 /\ k <= abs[i]
  /\ Put(Up([arr EXCEPT ![pos[i]] = <<i, k>>], pos, pos[i]))
  /\ abs' = [abs EXCEPT ![i] = k] /\ last' = <<>>
Increase(i, k) ==
  /\ pos[i] # 0 /\ k >= abs[i]
  /\ Put(Down([arr EXCEPT ![pos[i]] = <<i, k>>], pos, pos[i], <<i, k>>))
  /\ abs' = [abs EXCEPT ![i] = k] /\ last' = <<>>
Clear == arr' = <<>> /\ pos' = [i \in Ids |-> 0] /\ abs' = [i \in Ids |-> -1] /\ last' = <<>>
Next == Pop \/ Clear \/ \E i \in Ids, k \in Keys : Push(i, k) \/ Decrease(i, k) \/ Increase(i, k)
Spec == Init /\ [][Next]_vars

HeapOrder == \A p \in 2 .. Len(arr) : arr[Parent(p)][2] <= arr[p][2]
Positions == \A i \in Ids : IF pos[i] = 0 THEN \A p \in DOMAIN arr : arr[p][1] # i ELSE pos[i] \in DOMAIN arr /\ arr[pos[i]][1] = i
Represents == /\ \A i \in Ids : abs[i] = (IF pos[i] = 0 THEN -1 ELSE arr[pos[i]][2])
              /\ Len(arr) = Cardinality({i \in Ids : abs[i] # -1})
(* what was popped was minimal *)
PopsMinimum == last # <<>> => \A i \in Ids : abs[i] # -1 => last[2] <= abs[i]
=============================================================================
