---------------------------- MODULE MempoolLin ----------------------------
(* Concurrent use of pools and pool sets: accepts a history (harness/mpc.c) iff its operations can be put in one order, each between
   its call and its return, in which Mempool allows every result and every content.  An allocation from a set is a sequence of such
   steps: look up the smallest fitting pool, allocate from it, and go on with the next larger one if it has no room.        *)
EXTENDS Mempool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
T == 0..4
VARIABLES w, pend, l
vars == <<w, pend, l>>
None == [op |-> "none"]
Init == w = NoWorld /\ pend = [t \in T |-> None] /\ l = 1 /\ TLCSet(1, 1)
Chk(n, c) == IF c THEN TRUE ELSE PrintT(<<"REASON", n>>) /\ FALSE
Start == w' = NoWorld /\ pend' = [t \in T |-> None]
Pool(e) == /\ w' = CreateOk(w, e.p, [ncpu |-> e.ncpu, cap |-> e.cap, ilen |-> e.ilen, ord |-> e.ord, max |-> e.max, robust |-> FALSE, poi |-> FALSE, pt |-> 0, icb |-> FALSE, it |-> <<>>, init |-> FALSE])
           /\ UNCHANGED pend
\* the call comes with the result of its return
Call(e) == /\ pend[e.t] = None
           /\ pend' = [pend EXCEPT ![e.t] = [op |-> e.op, a |-> e.a, kind |-> e.kind, h |-> e.h, res |-> e.res, lin |-> FALSE, min |-> 0, cand |-> -1]]
           /\ UNCHANGED w
Done(t) == pend' = [pend EXCEPT ![t].lin = TRUE]
\* an attempt to allocate from pool p
Serves(o, p) == /\ o.res.ok = 1
                /\ o.res.off % w.pools[p].cfg.ilen = 0
                /\ LET s == o.res.off \div w.pools[p].cfg.ilen IN
                   /\ \A q \in DOMAIN w.pools : q # p => o.res.r \notin w.pools[q].K
                   /\ MayServe(w, p, o.res.r, s)
                   /\ ContentOk(w, p, o.res.r, s, o.kind, o.res.c, 77, TRUE)
                   /\ w' = MallocOk(w, p, o.h, o.res.r, s, o.res.c)
OrdOf(len) == CHOOSE k \in 0..20 : 2 ^ k >= len /\ (k = 0 \/ 2 ^ (k - 1) < len)
\* a set has no entries below the size of a pointer (larger than that is all the driver asks for)
Lin(t) ==
  LET o == pend[t] IN
  /\ IF o = None THEN FALSE ELSE ~o.lin
  /\ CASE o.op = "malloc" -> (IF o.res.ok = 1 THEN Serves(o, o.a) ELSE o.res.err = "ENOMEM" /\ MallocNoMem(w, o.a) /\ UNCHANGED w) /\ Done(t)
       [] o.op = "free" -> CanFree(w, o.h) /\ w' = FreeOk(w, o.h) /\ Done(t)
       [] o.op = "add" -> (IF SetAddOk(w, o.a) THEN o.res.ok = 1 /\ w' = SetAdd(w, o.a) ELSE o.res.ok = 0 /\ o.res.err = "EBUSY" /\ UNCHANGED w) /\ Done(t)
       [] o.op = "own" -> o.res.ok = 1 /\ UNCHANGED w /\ Done(t)
       [] o.op = "set" ->
            IF o.cand = -1
            THEN LET C == {x \in DOMAIN w.set.m : x >= o.min /\ x >= OrdOf(o.a)} IN
                 IF C = {} THEN o.res.ok = 0 /\ o.res.err = "ENOMEM" /\ UNCHANGED w /\ Done(t)
                 ELSE pend' = [pend EXCEPT ![t].cand = CHOOSE x \in C : \A y \in C : x <= y] /\ UNCHANGED w
            ELSE LET p == w.set.m[o.cand] IN
                 \/ Serves(o, p) /\ Done(t)
                 \/ MallocNoMem(w, p) /\ pend' = [pend EXCEPT ![t].cand = -1, ![t].min = o.cand + 1] /\ UNCHANGED w
       [] OTHER -> FALSE
Ret(e) == /\ IF pend[e.t] = None THEN FALSE ELSE pend[e.t].lin
          /\ pend' = [pend EXCEPT ![e.t] = None] /\ UNCHANGED w
Write(e) == e.h \in Live(w) /\ w' = [w EXCEPT !.items[e.h].c = [c \in DOMAIN @ |-> e.v]] /\ UNCHANGED pend
Read(e) == e.h \in Live(w) /\ w.items[e.h].c = e.c /\ UNCHANGED <<w, pend>>
Ev(e) == CASE e.e = "start" -> Start
           [] e.e = "pool" -> Pool(e)
           [] e.e = "call" -> Call(e)
           [] e.e = "ret" -> Ret(e)
           [] e.e = "write" -> Write(e)
           [] e.e = "read" -> Read(e)
           [] e.e = "end" -> e.ok /\ Live(w) = {} /\ UNCHANGED <<w, pend>>
           [] OTHER -> FALSE
Next == \/ l <= Len(Trace) /\ Ev(Trace[l]) /\ l' = l + 1
        \/ l <= Len(Trace) /\ Trace[l].e = "ret" /\ (\E t \in T : Lin(t)) /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
RegL == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
