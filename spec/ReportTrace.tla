----------------------------- MODULE ReportTrace -----------------------------
(* Structured reporting.  Scopes nest; what is reported goes to the place    *)
(* the open scopes name, in the tree of the innermost root: a capture or the *)
(* report of the whole process.  Blocked scopes and threads without a report *)
(* swallow what happens inside them, captures hand it over.                  *)
(*   st   the open scopes, innermost last:                                   *)
(*        [kind, path, tree, items]   path relative to the innermost root,   *)
(*        tree only of roots, items only of collections                      *)
EXTENDS TraceBase, FiniteSets

VARIABLES st
vars == <<ep, l, st>>

Scope(k, p) == [kind |-> k, path |-> p, tree |-> {}, items |-> 0]
RootScope == Scope(IF E.root = "none" THEN "off" ELSE "cap", <<>>)
Init == TBInit /\ st = <<RootScope>>

Top == st[Len(st)]
Rootlike == {"cap", "block", "off"}
(* the root everything reported now belongs to *)
Base == CHOOSE i \in 1 .. Len(st) : st[i].kind \in Rootlike /\ \A j \in (i + 1) .. Len(st) : st[j].kind \notin Rootlike
(* captures started in a thread without a report are without one as well *)
Off == \E i \in 1 .. Len(st) : st[i].kind = "off"
AddAt(s, p, t, v) == IF s[Base].kind = "cap" /\ ~Off THEN [s EXCEPT ![Base].tree = @ \cup {<<p, t, v>>}] ELSE s
(* swallowed reports may repeat keys, others name a place for the first time *)
Fresh(p) == st[Base].kind = "cap" /\ ~Off => \A x \in st[Base].tree : x[1] # p

InObject == Top.kind # "col"
Here(k) == Append(Top.path, k)
Report == Is("rep") /\ InObject /\ Fresh(Here(Ev.k)) /\ st' = AddAt(st, Here(Ev.k), Ev.t, Ev.v)
Ctx == Is("ctx") /\ InObject /\ Fresh(Here(Ev.k)) /\ st' = Append(AddAt(st, Here(Ev.k), "o", 0), Scope("ctx", Here(Ev.k)))
Col == Is("col") /\ InObject /\ Fresh(Here(Ev.k)) /\ st' = Append(AddAt(st, Here(Ev.k), "c", 0), Scope("col", Here(Ev.k)))
Item ==
  /\ Is("item") /\ Top.kind = "col"
  /\ \E p \in {Here("#" \o ToString(Top.items))} :
       st' = Append([AddAt(st, p, "o", 0) EXCEPT ![Len(st)].items = @ + 1], Scope("item", p))
Block == Is("block") /\ st' = Append(st, Scope("block", <<>>))
Thread == Is("off") /\ st' = Append(st, Scope("off", <<>>))
Capture == Is("cap") /\ st' = Append(st, Scope("cap", <<>>))
Pop == Is("pop") /\ Len(st) > 1 /\ st' = SubSeq(st, 1, Len(st) - 1)
Observed == {<<Ev.res[i][1], Ev.res[i][2], Ev.res[i][3]>> : i \in 1 .. Len(Ev.res)}
Take ==
  /\ Is("take") /\ Top.kind = "cap"
  /\ IF Off THEN Ev.none ELSE ~Ev.none /\ Observed = Top.tree /\ Cardinality(Top.tree) = Len(Ev.res)
  /\ st' = [st EXCEPT ![Len(st)].tree = {}]
(* the report of the process: everything, and who made it *)
Meta == {"git_revision", "build_target", "build_profile", "feature_flags", "build_time", "build_with_rustc", "program", "start_time", "args"}
Whole ==
  /\ Is("root") /\ Len(st) = 1
  /\ Observed = Top.tree /\ Cardinality(Top.tree) = Len(Ev.res)
  /\ Meta \subseteq {Ev.meta[i] : i \in 1 .. Len(Ev.meta)}
  /\ UNCHANGED st

Next ==
  \/ More /\ Consume /\ (Report \/ Ctx \/ Col \/ Item \/ Block \/ Thread \/ Capture \/ Pop \/ Take \/ Whole)
  \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
