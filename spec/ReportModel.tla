----------------------------- MODULE ReportModel -----------------------------
(* The reporting stack as it is implemented (a current context, a stack of   *)
(* suspended ones, keys between a context and its parent, nothing stacked    *)
(* below a blocked context) refines the meaning of nested scopes: whatever a *)
(* capture hands over is the tree of what was reported inside it.  All legal *)
(* sequences of operations up to DEPTH are explored, and printed for replay  *)
(* into the real code.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DEPTH, PRINT

VARIABLES
  scopes,  \* meaning: sequence of [kind, path, tree, items]
  cur,     \* implementation: [kind, val]; val a set of entries relative to the context
  stack,   \* implementation: sequence of [kind, key, val]
  n,       \* number of operations (and source of fresh keys)
  h        \* the history, for replay
vars == <<scopes, cur, stack, n, h>>

Key == "k" \o ToString(n)
Scope(k, p) == [kind |-> k, path |-> p, tree |-> {}, items |-> 0]
Ctx(k, v) == [kind |-> k, val |-> v]
Fr(k, key, v) == [kind |-> k, key |-> key, val |-> v]

\* a program inside one capture
Init ==
  /\ scopes = <<Scope("cap", <<>>)>>
  /\ cur = Ctx("cap", {}) /\ stack = <<Fr("obj", "", {})>>
  /\ n = 0 /\ h = <<>>

Top == scopes[Len(scopes)]
Rootlike == {"cap", "block"}
Base == CHOOSE i \in 1 .. Len(scopes) : scopes[i].kind \in Rootlike /\ \A j \in (i + 1) .. Len(scopes) : scopes[j].kind \notin Rootlike
AddAt(p, t) == IF scopes[Base].kind = "cap" THEN [scopes EXCEPT ![Base].tree = @ \cup {<<p, t>>}] ELSE scopes
Here(k) == Append(Top.path, k)

Push(k, key, v) == stack' = Append(stack, Fr(k, key, v))
Last(s) == s[Len(s)]
\* entries of a finished context, seen from its parent
Under(key, t, v) == {<<<<key>>, t>>} \cup {<<<<key>> \o x[1], x[2]>> : x \in v}
ItemsOf(v) == Cardinality({x \in v : Len(x[1]) = 1})

Rep ==
  /\ Top.kind # "col"
  /\ scopes' = AddAt(Here(Key), "v")
  /\ IF cur.kind = "block" THEN UNCHANGED <<cur, stack>>
     ELSE cur' = [cur EXCEPT !.val = @ \cup {<<<<Key>>, "v">>}] /\ UNCHANGED stack
OpenKeyed(kind, t) ==
  /\ Top.kind # "col"
  /\ scopes' = Append(AddAt(Here(Key), t), Scope(kind, Here(Key)))
  /\ IF cur.kind = "block" THEN UNCHANGED <<cur, stack>>
     ELSE /\ stack' = stack \o <<Fr(cur.kind, "", cur.val), Fr("key", Key, {})>>
          /\ cur' = Ctx(IF kind = "ctx" THEN "obj" ELSE "col", {})
OpenItem ==
  /\ Top.kind = "col"
  /\ LET p == Here("#" \o ToString(Top.items)) IN
     scopes' = Append([AddAt(p, "o") EXCEPT ![Len(scopes)].items = @ + 1], Scope("item", p))
  /\ IF cur.kind = "block" THEN UNCHANGED <<cur, stack>>
     ELSE Push("col", "", cur.val) /\ cur' = Ctx("obj", {})
OpenRoot(kind) ==
  /\ scopes' = Append(scopes, Scope(kind, <<>>))
  /\ Push(cur.kind, "", cur.val) /\ cur' = Ctx(kind, {})
\* closing a context or collection or item
Close ==
  /\ Len(scopes) > 1
  /\ scopes' = SubSeq(scopes, 1, Len(scopes) - 1)
  /\ IF Top.kind \in Rootlike
       THEN cur.kind \in Rootlike /\ cur' = Ctx(Last(stack).kind, Last(stack).val) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
       ELSE IF cur.kind = "block" THEN UNCHANGED <<cur, stack>>
       ELSE IF Last(stack).kind = "key"
         THEN LET p == stack[Len(stack) - 1] IN
              /\ cur' = Ctx(p.kind, p.val \cup Under(Last(stack).key, IF cur.kind = "col" THEN "c" ELSE "o", cur.val))
              /\ stack' = SubSeq(stack, 1, Len(stack) - 2)
         ELSE LET p == Last(stack) IN
              /\ cur' = Ctx(p.kind, p.val \cup Under("#" \o ToString(ItemsOf(p.val)), "o", cur.val))
              /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
\* handing over and closing
Take == Top.kind = "cap" /\ Close

Did(o) == n' = n + 1 /\ h' = (IF PRINT THEN Append(h, <<o, n>>) ELSE h)
Next ==
  /\ n < DEPTH
  /\ \/ Rep /\ Did("rep")
     \/ OpenKeyed("ctx", "o") /\ Did("ctx")
     \/ OpenKeyed("col", "c") /\ Did("col")
     \/ OpenItem /\ Did("item")
     \/ OpenRoot("block") /\ Did("block")
     \/ OpenRoot("cap") /\ Did("cap")
     \/ Take /\ Did("take")
     \/ Top.kind # "cap" /\ Close /\ Did("pop")
  /\ ((PRINT /\ n' = DEPTH) => PrintT("BEH " \o ToJson(h')))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the implementation never meets a context it does not expect
Consistent ==
  /\ Top.kind = "cap" => cur.kind = "cap"
  /\ Top.kind = "block" => cur.kind = "block"
  /\ (Top.kind = "ctx" \/ Top.kind = "item") => cur.kind \in {"obj", "block"}
  /\ Top.kind = "col" => cur.kind \in {"col", "block"}
\* what a capture would hand over
HandsOver == Top.kind = "cap" => cur.val = Top.tree
\* once everything is closed, only what was there before remains
Empty == Len(scopes) = 1 => Len(stack) = 1
=============================================================================
