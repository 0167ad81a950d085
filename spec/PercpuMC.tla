------------------------------ MODULE PercpuMC ------------------------------
(* The retry loops on top of helpers that behave as RseqCs says, for every preemption and migration: the structures are Percpu's.
   Each thread runs one operation after another on a per-CPU list (push, pop), counter and lock.  Memory: head[cpu], next[node],
   ctr[cpu], lock[cpu].  A helper attempt is live until its thread is interrupted; it commits at once or not at all.          *)
EXTENDS Percpu, TLC, FiniteSets
CONSTANTS Threads, Cpus, Nodes, Rounds, Variant
VARIABLES head, next, ctr, lck, th, pc, loc, live, abs, own, n, bad
vars == <<head, next, ctr, lck, th, pc, loc, live, abs, own, n, bad>>
Null == 0
Init == /\ head = [c \in Cpus |-> Null] /\ next = [x \in Nodes |-> Null] /\ ctr = [c \in Cpus |-> 0] /\ lck = [c \in Cpus |-> 0]
        /\ th \in [Threads -> Cpus] /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> [cpu |-> 0, e |-> 0, x |-> 0]]
        /\ live = [t \in Threads |-> FALSE] /\ abs = [c \in Cpus |-> Empty]
        /\ own = [x \in Nodes |-> CHOOSE t \in Threads : TRUE] /\ n = [t \in Threads |-> 0] /\ bad = FALSE
\* who may run on a CPU: one thread at a time; an interruption ends the attempt and may move the thread
Interrupt(t) == /\ pc[t] \notin {"idle"} /\ \E c \in Cpus : th' = [th EXCEPT ![t] = c]
                /\ live' = [live EXCEPT ![t] = FALSE]
                /\ UNCHANGED <<head, next, ctr, lck, pc, loc, abs, own, n, bad>>
\* two threads on one CPU never run at once: while one is inside an attempt, another on its CPU steps only after interrupting it
Alone(t) == \A u \in Threads \ {t} : th[u] = th[t] => ~live[u]
Set(t, p, l) == pc' = [pc EXCEPT ![t] = p] /\ loc' = [loc EXCEPT ![t] = l]
Mem == UNCHANGED <<head, next, ctr, lck, abs, own>>
Begin(t, op) == /\ pc[t] = "idle" /\ n[t] < Rounds /\ n' = [n EXCEPT ![t] = @ + 1]
                /\ \E x \in {y \in Nodes : own[y] = t} \cup {Null} : (op = "push") = (x # Null) /\ Set(t, op \o "1", [cpu |-> th[t], e |-> 0, x |-> x])
                /\ live' = [live EXCEPT ![t] = FALSE] /\ UNCHANGED <<th, bad>> /\ Mem
\* read the CPU number (and, for a push, the head) outside the section
Read(t, op) == /\ pc[t] = op \o "1"
               /\ Set(t, op \o "2", [cpu |-> th[t], e |-> IF op = "push" THEN head[th[t]] ELSE 0, x |-> loc[t].x])
               /\ next' = IF op = "push" THEN [next EXCEPT ![loc[t].x] = head[th[t]]] ELSE next
               /\ UNCHANGED <<head, ctr, lck, abs, own, th, live, n, bad>>
Arm(t, op) == /\ pc[t] = op \o "2" /\ Set(t, op \o "3", loc[t]) /\ live' = [live EXCEPT ![t] = TRUE]
              /\ UNCHANGED <<th, n, bad>> /\ Mem
\* inside the section: CPU comparison, then (separately) the comparison and the commit
CheckCpu(t, op) == /\ pc[t] = op \o "3" /\ live[t]
                   /\ Set(t, IF th[t] = loc[t].cpu \/ Variant = "NoCpuCheck" THEN op \o "4" ELSE op \o "1", loc[t])
                   /\ live' = [live EXCEPT ![t] = th[t] = loc[t].cpu \/ Variant = "NoCpuCheck"] /\ UNCHANGED <<th, n, bad>> /\ Mem
\* pop: load the head and its successor, then store: the section may be interrupted between
LoadPop(t) == /\ pc[t] = "pop4" /\ (live[t] \/ Variant = "NoAbort")
              /\ LET h == head[loc[t].cpu] IN
                 Set(t, IF h = Null THEN "popE" ELSE "pop5", [loc[t] EXCEPT !.x = h, !.e = IF h = Null THEN 0 ELSE next[h]])
              /\ IF head[loc[t].cpu] = Null THEN bad' = (bad \/ abs[loc[t].cpu].list # <<>>) ELSE bad' = bad
              /\ UNCHANGED <<th, live, n>> /\ Mem
PopEmpty(t) == pc[t] = "popE" /\ Set(t, "idle", loc[t]) /\ live' = [live EXCEPT ![t] = FALSE] /\ UNCHANGED <<th, n, bad>> /\ Mem
CanCommit(t) == live[t] \/ Variant = "NoAbort"
Abs(c, t, o, r) == /\ abs' = [abs EXCEPT ![c] = IF Can(@, t, o, r) THEN Do(@, t, o, r) ELSE @]
                   /\ bad' = (bad \/ ~Can(abs[c], t, o, r))
Done(t) == Set(t, "idle", loc[t]) /\ live' = [live EXCEPT ![t] = FALSE] /\ UNCHANGED <<th, n>>
CommitPop(t) == LET c == loc[t].cpu x == loc[t].x IN
                /\ pc[t] = "pop5" /\ CanCommit(t) /\ head' = [head EXCEPT ![c] = loc[t].e]
                /\ Abs(c, t, [op |-> "lpop", arg |-> 0], [cpu |-> c, val |-> x]) /\ own' = [own EXCEPT ![x] = t]
                /\ Done(t) /\ UNCHANGED <<next, ctr, lck>>
CommitPush(t) == LET c == loc[t].cpu x == loc[t].x IN
                 /\ pc[t] = "push4" /\ CanCommit(t)
                 /\ IF head[c] # loc[t].e THEN Set(t, "push1", loc[t]) /\ live' = [live EXCEPT ![t] = FALSE] /\ UNCHANGED <<th, n, bad>> /\ Mem
                    ELSE /\ head' = [head EXCEPT ![c] = x] /\ Abs(c, t, [op |-> "lpush", arg |-> x], [cpu |-> c, val |-> 0])
                         /\ own' = [own EXCEPT ![x] = "list"] /\ Done(t) /\ UNCHANGED <<next, ctr, lck>>
LoadInc(t) == pc[t] = "inc4" /\ CanCommit(t) /\ Set(t, "inc5", [loc[t] EXCEPT !.e = ctr[loc[t].cpu]]) /\ UNCHANGED <<th, live, n, bad>> /\ Mem
CommitInc(t) == LET c == loc[t].cpu IN pc[t] = "inc5" /\ CanCommit(t) /\ ctr' = [ctr EXCEPT ![c] = loc[t].e + 1]
                /\ Abs(c, t, [op |-> "inc", arg |-> 1], [cpu |-> c, val |-> 0]) /\ Done(t) /\ UNCHANGED <<head, next, lck, own>>
LockTest(t) == pc[t] = "lock4" /\ CanCommit(t) /\ (IF lck[loc[t].cpu] = 0 THEN Set(t, "lock5", loc[t]) /\ UNCHANGED live ELSE Set(t, "lock1", loc[t]) /\ live' = [live EXCEPT ![t] = FALSE])
               /\ UNCHANGED <<th, n, bad>> /\ Mem
CommitLock(t) == LET c == loc[t].cpu IN pc[t] = "lock5" /\ CanCommit(t) /\ lck' = [lck EXCEPT ![c] = 1]
                 /\ Abs(c, t, [op |-> "lock", arg |-> 0], [cpu |-> c, val |-> 0]) /\ Set(t, "held", loc[t]) /\ live' = [live EXCEPT ![t] = FALSE]
                 /\ UNCHANGED <<head, next, ctr, own, th, n>>
Unlock(t) == LET c == loc[t].cpu IN pc[t] = "held" /\ lck' = [lck EXCEPT ![c] = 0] /\ Abs(c, t, [op |-> "unlock", arg |-> 0], [cpu |-> c, val |-> 0])
             /\ Done(t) /\ UNCHANGED <<head, next, ctr, own>>
Act(t) == \/ \E op \in {"push", "pop", "inc", "lock"} : Begin(t, op) \/ Read(t, op) \/ Arm(t, op) \/ CheckCpu(t, op)
          \/ LoadPop(t) \/ PopEmpty(t) \/ CommitPop(t) \/ CommitPush(t) \/ LoadInc(t) \/ CommitInc(t) \/ LockTest(t) \/ CommitLock(t) \/ Unlock(t)
\* an interrupted attempt restarts
Abort(t) == /\ \E op \in {"push", "pop", "inc", "lock"} : (pc[t] \in {op \o "3", op \o "4", op \o "5"} /\ Set(t, op \o "1", loc[t]))
            /\ ~live[t] /\ Variant # "NoAbort" /\ UNCHANGED <<th, live, n, bad>> /\ Mem
Next == \E t \in Threads : (Alone(t) /\ Act(t)) \/ Abort(t) \/ Interrupt(t)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RECURSIVE Chain(_, _)
Chain(x, k) == IF x = Null \/ k = 0 THEN <<>> ELSE <<x>> \o Chain(next[x], k - 1)
Refines == /\ ~bad
           /\ \A c \in Cpus : /\ abs[c].list = Chain(head[c], Cardinality(Nodes) + 1)
                              /\ abs[c].ctr = ctr[c] /\ (abs[c].lock = -1) = (lck[c] = 0)
=============================================================================
