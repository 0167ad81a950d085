--------------------------- MODULE MempoolConcMC ---------------------------
(* Implementation-shaped model of concurrent allocation and release: free list threaded through the slots, bump pointer, range growth
   up to a limit, pool lock.  Every step of every thread may interleave.  Each call must take effect at one instant as in
   Mempool.tla: the invariants say what that leaves no room for.  Variants leave out a part of the locking.            *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Threads, Cap, Max, Rounds, Variant
Nil == -1
Slots == 0..(Cap * Max - 1)          \* slot s lies in range s \div Cap
VARIABLES head, nxt, bump, nranges, lock, pc, loc, owned, rounds, failed
vars == <<head, nxt, bump, nranges, lock, pc, loc, owned, rounds, failed>>
Init == /\ head = Nil /\ nxt = [s \in Slots |-> Nil] /\ bump = Cap /\ nranges = 0 /\ lock = Nil /\ failed = FALSE
        /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> [n |-> Nil, s |-> Nil]] /\ owned = [t \in Threads |-> {}] /\ rounds = [t \in Threads |-> Rounds]
Locks(op) == ~(Variant = "NoLock" \/ (Variant = "NoLockFree" /\ op = "free") \/ (Variant = "NoLockMalloc" /\ op = "malloc"))
Go(t, to) == pc' = [pc EXCEPT ![t] = to]
Acquire(t, op) == IF Locks(op) THEN lock = Nil /\ lock' = t ELSE UNCHANGED lock
Release(t, op) == IF Locks(op) THEN lock' = Nil ELSE UNCHANGED lock
U(x) == UNCHANGED x
Begin(t) == /\ pc[t] = "idle" /\ rounds[t] > 0 /\ rounds' = [rounds EXCEPT ![t] = @ - 1]
            /\ \/ Go(t, "m1") /\ U(<<loc, owned>>)
               \/ \E s \in owned[t] : Go(t, "f1") /\ loc' = [loc EXCEPT ![t].s = s] /\ owned' = [owned EXCEPT ![t] = @ \ {s}]
            /\ U(<<head, nxt, bump, nranges, lock, failed>>)
M1(t) == pc[t] = "m1" /\ Acquire(t, "malloc") /\ Go(t, "m2") /\ U(<<head, nxt, bump, nranges, loc, owned, rounds, failed>>)
M2(t) == pc[t] = "m2" /\ loc' = [loc EXCEPT ![t].n = head] /\ Go(t, IF head # Nil THEN "m3" ELSE "m5") /\ U(<<head, nxt, bump, nranges, lock, owned, rounds, failed>>)
M3(t) == pc[t] = "m3" /\ head' = nxt[loc[t].n] /\ loc' = [loc EXCEPT ![t].s = loc[t].n] /\ Go(t, "m9") /\ U(<<nxt, bump, nranges, lock, owned, rounds, failed>>)
\* bump allocation; a full newest range makes a new one, up to the limit
M5(t) == /\ pc[t] = "m5"
         /\ IF bump < Cap THEN Go(t, "m7") /\ loc' = [loc EXCEPT ![t].n = bump] /\ U(<<nranges, bump, failed>>)
            ELSE IF nranges < Max THEN Go(t, "m6") /\ loc' = [loc EXCEPT ![t].n = nranges] /\ U(<<nranges, bump, failed>>)
            ELSE /\ Go(t, "m9") /\ loc' = [loc EXCEPT ![t].s = Nil] /\ U(<<nranges, bump>>)
                 \* refusing is right only if every slot is owned or about to be given back
                 /\ failed' = (failed \/ Cardinality(UNION {owned[x] : x \in Threads}) + Cardinality({x \in Threads : pc[x] \in {"f1", "f2", "f3", "f4", "m7", "m9"} /\ x # t}) < Cap * Max)
         /\ U(<<head, nxt, lock, owned, rounds>>)
M6(t) == pc[t] = "m6" /\ nranges' = loc[t].n + 1 /\ bump' = 0 /\ loc' = [loc EXCEPT ![t].n = 0] /\ Go(t, "m7") /\ U(<<head, nxt, lock, owned, rounds, failed>>)
M7(t) == pc[t] = "m7" /\ bump' = loc[t].n + 1 /\ loc' = [loc EXCEPT ![t].s = (nranges - 1) * Cap + loc[t].n] /\ Go(t, "m9") /\ U(<<head, nxt, nranges, lock, owned, rounds, failed>>)
M9(t) == pc[t] = "m9" /\ Release(t, "malloc") /\ Go(t, "idle") /\ owned' = (IF loc[t].s = Nil THEN owned ELSE [owned EXCEPT ![t] = @ \cup {loc[t].s}]) /\ U(<<head, nxt, bump, nranges, loc, rounds, failed>>)
F1(t) == pc[t] = "f1" /\ Acquire(t, "free") /\ Go(t, "f2") /\ U(<<head, nxt, bump, nranges, loc, owned, rounds, failed>>)
F2(t) == pc[t] = "f2" /\ loc' = [loc EXCEPT ![t].n = head] /\ Go(t, "f3") /\ U(<<head, nxt, bump, nranges, lock, owned, rounds, failed>>)
F3(t) == pc[t] = "f3" /\ nxt' = [nxt EXCEPT ![loc[t].s] = loc[t].n] /\ Go(t, "f4") /\ U(<<head, bump, nranges, lock, loc, owned, rounds, failed>>)
F4(t) == pc[t] = "f4" /\ head' = loc[t].s /\ Release(t, "free") /\ Go(t, "idle") /\ U(<<nxt, bump, nranges, loc, owned, rounds, failed>>)
Next == \E t \in Threads : Begin(t) \/ M1(t) \/ M2(t) \/ M3(t) \/ M5(t) \/ M6(t) \/ M7(t) \/ M9(t) \/ F1(t) \/ F2(t) \/ F3(t) \/ F4(t)
Spec == Init /\ [][Next]_vars
Exclusive == \A t, u \in Threads : t # u => owned[t] \cap owned[u] = {}
RECURSIVE ListOf(_, _)
ListOf(s, n) == IF s = Nil \/ n = 0 THEN <<>> ELSE <<s>> \o ListOf(nxt[s], n - 1)
FreeList == ListOf(head, Cap * Max + 1)
NoLost == (\A t \in Threads : pc[t] = "idle") =>
            LET L == FreeList  S == {L[i] : i \in 1..Len(L)}  O == UNION {owned[t] : t \in Threads}  made == IF nranges = 0 THEN 0 ELSE (nranges - 1) * Cap + bump IN
            /\ Len(L) = Cardinality(S) /\ S \cap O = {} /\ Cardinality(S) + Cardinality(O) = made
Refusals == ~failed
Limited == nranges <= Max
Conc == Exclusive /\ NoLost /\ Refusals /\ Limited
=============================================================================
