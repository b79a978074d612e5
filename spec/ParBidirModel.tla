---------------------------- MODULE ParBidirModel ----------------------------
(* The two threads of the parallel bidirectional core search                  *)
(* (ch_potentials/query.rs, MultiThreadedBiDirSkipLowDegServer) on a machine  *)
(* with store buffers: labels and progress are plain atomics, each thread     *)
(* reads its own stores at once, the other thread only after they were        *)
(* flushed (in order); the shared upper bound is updated by read-modify-write *)
(* and therefore drains the buffer.                                           *)
(* FENCE = TRUE: the buffer is drained between writing a label and reading    *)
(* the label of the other search (the code since it was fixed).               *)
(* FENCE = FALSE is refuted: both searches can miss each other at the meeting *)
(* node and each then prunes what the other has already settled.              *)
(* The estimates are zero; pruning uses the progress of the other search.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, WS, EDGES, FENCE, CAPS
INF == 1000
V == 0 .. N - 1
T == {"f", "b"}
Other(x) == IF x = "f" THEN "b" ELSE "f"
Start(x) == IF x = "f" THEN 0 ELSE N - 1
Far(x) == Start(Other(x))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Add(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b

VARIABLES wt, cap, best,
  lab,     \* the labels as the owner sees them
  mem,     \* the labels in memory
  prog, mprog, buf, queue, done, todo, pc, cur, tent, meet, glob
vars == <<wt, cap, best, lab, mem, prog, mprog, buf, queue, done, todo, pc, cur, tent, meet, glob>>

W(u, v) == IF {u, v} \in EDGES THEN wt[{u, v}] ELSE INF
Nb(u) == {v \in V : v # u /\ W(u, v) < INF}
RECURSIVE It(_, _)
It(d, k) == IF k = 0 THEN d ELSE It([v \in V |-> Min({d[v]} \cup {Add(d[u], W(u, v)) : u \in Nb(v)})], k - 1)
TrueDist == It([v \in V |-> IF v = 0 THEN 0 ELSE INF], N - 1)[N - 1]

Init ==
  /\ wt \in [EDGES -> WS] /\ cap \in CAPS
  /\ best = TrueDist
  /\ lab = [x \in T |-> [v \in V |-> IF v = Start(x) THEN 0 ELSE INF]]
  /\ mem = lab
  /\ prog = [x \in T |-> 0] /\ mprog = prog
  /\ buf = [x \in T |-> <<>>]
  /\ queue = [x \in T |-> {Start(x)}] /\ done = [x \in T |-> FALSE]
  /\ todo = [x \in T |-> {}] /\ pc = [x \in T |-> "pop"] /\ cur = [x \in T |-> <<0, 0>>]
  /\ tent = [x \in T |-> INF] /\ meet = [x \in T |-> N] /\ glob = INF

Lim(x) == IF tent[x] < cap THEN tent[x] ELSE cap
Key(x) == IF queue[x] = {} THEN INF ELSE Min({lab[x][v] : v \in queue[x]})
Top(x) == Min({v \in queue[x] : lab[x][v] = Key(x)})

(* the symmetric stop rule; the queue may also be empty *)
End(x) == /\ pc[x] = "pop" /\ Key(x) >= Lim(x)
          /\ pc' = [pc EXCEPT ![x] = "end"]
          /\ UNCHANGED <<wt, cap, best, lab, mem, prog, mprog, buf, queue, done, todo, cur, tent, meet, glob>>
Pop(x) == /\ pc[x] = "pop" /\ Key(x) < Lim(x)
          /\ cur' = [cur EXCEPT ![x] = <<Top(x), 0>>]
          /\ todo' = [todo EXCEPT ![x] = Nb(Top(x))]
          /\ queue' = [queue EXCEPT ![x] = @ \ {Top(x)}]
          /\ pc' = [pc EXCEPT ![x] = "arc"]
          /\ UNCHANGED <<wt, cap, best, lab, mem, prog, mprog, buf, done, tent, meet, glob>>
(* one arc: improve the label (store), then decide whether to prune *)
Arc(x) == /\ pc[x] = "arc" /\ todo[x] # {}
          /\ LET u == cur[x][1] v == Min(todo[x]) d == Add(lab[x][u], W(u, v)) IN
             IF d < lab[x][v]
             THEN /\ lab' = [lab EXCEPT ![x][v] = d]
                  /\ buf' = [buf EXCEPT ![x] = Append(@, <<v, d>>)]
                  /\ cur' = [cur EXCEPT ![x] = <<u, v>>]
                  /\ pc' = [pc EXCEPT ![x] = "prune"]
             ELSE UNCHANGED <<lab, buf, cur, pc>>
          /\ todo' = [todo EXCEPT ![x] = @ \ {Min(@)}]
          /\ UNCHANGED <<wt, cap, best, mem, prog, mprog, queue, done, tent, meet, glob>>
Prune(x) == /\ pc[x] = "prune"
            /\ LET d == lab[x][cur[x][2]] IN
               pc' = [pc EXCEPT ![x] = IF Lim(x) < INF /\ Add(d, mprog[Other(x)]) >= Lim(x) THEN "arc" ELSE "read"]
            /\ UNCHANGED <<wt, cap, best, lab, mem, prog, mprog, buf, queue, done, todo, cur, tent, meet, glob>>
Read(x) == /\ pc[x] = "read" /\ (FENCE => buf[x] = <<>>)
           /\ LET v == cur[x][2] m == Add(lab[x][v], mem[Other(x)][v]) IN
              tent' = [tent EXCEPT ![x] = IF m < @ THEN m ELSE @]
           /\ pc' = [pc EXCEPT ![x] = "rmw"]
           /\ UNCHANGED <<wt, cap, best, lab, mem, prog, mprog, buf, queue, done, todo, cur, meet, glob>>
Rmw(x) == /\ pc[x] = "rmw" /\ buf[x] = <<>>
          /\ glob' = (IF tent[x] < glob THEN tent[x] ELSE glob)
          /\ meet' = [meet EXCEPT ![x] = IF tent[x] < glob THEN cur[x][2] ELSE @]
          /\ queue' = [queue EXCEPT ![x] = @ \cup {cur[x][2]}]
          /\ pc' = [pc EXCEPT ![x] = "arc"]
          /\ UNCHANGED <<wt, cap, best, lab, mem, prog, mprog, buf, done, todo, cur, tent>>
Progress(x) == /\ pc[x] = "arc" /\ todo[x] = {}
               /\ LET far == cur[x][1] = Far(x) /\ lab[x][Far(x)] <= glob IN
                  /\ prog' = [prog EXCEPT ![x] = IF far THEN INF ELSE Key(x)]
                  /\ buf' = [buf EXCEPT ![x] = Append(@, <<N, prog'[x]>>)]
                  /\ done' = [done EXCEPT ![x] = far]
                  /\ pc' = [pc EXCEPT ![x] = IF far THEN "end" ELSE "pop"]
               /\ UNCHANGED <<wt, cap, best, lab, mem, mprog, queue, todo, cur, tent, meet, glob>>
Flush(x) == /\ buf[x] # <<>>
            /\ LET e == buf[x][1] IN
               IF e[1] = N THEN mprog' = [mprog EXCEPT ![x] = e[2]] /\ UNCHANGED mem
                           ELSE mem' = [mem EXCEPT ![x][e[1]] = e[2]] /\ UNCHANGED mprog
            /\ buf' = [buf EXCEPT ![x] = Tail(@)]
            /\ UNCHANGED <<wt, cap, best, lab, prog, queue, done, todo, pc, cur, tent, meet, glob>>
Next == \E x \in T : End(x) \/ Pop(x) \/ Arc(x) \/ Prune(x) \/ Read(x) \/ Rmw(x) \/ Progress(x) \/ Flush(x)
Spec == Init /\ [][Next]_vars /\ \A x \in T : WF_vars(End(x) \/ Pop(x) \/ Arc(x) \/ Prune(x) \/ Read(x) \/ Rmw(x) \/ Progress(x)) /\ WF_vars(Flush(x))

Over == pc["f"] = "end" /\ pc["b"] = "end"
Through(v) == Add(lab["f"][v], lab["b"][v])
Cands == {v \in V : v \in {0, N - 1, meet["f"], meet["b"]}} \cup (IF done["f"] THEN {N - 1} ELSE {})
Result == Min({Through(v) : v \in Cands})
Exact == Over => IF best < cap THEN Result = best ELSE Result >= best
Sound == tent["f"] >= best /\ tent["b"] >= best /\ glob >= best
Terminates == <>Over
=============================================================================
