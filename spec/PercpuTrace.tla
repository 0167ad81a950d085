---------------------------- MODULE PercpuTrace ----------------------------
(* Accepts a concurrent history of per-CPU structures (harness/pc.c) iff its operations can be ordered, each between its call
   and its return, so that Percpu allows every result and the final contents.  Calls carry their results (looked up from
   their returns when the log is prepared).                                                                            *)
EXTENDS Percpu, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
T == 0..4
C == 0..2
VARIABLES st, pend, l
vars == <<st, pend, l>>
None == [op |-> "none"]
Init == st = [c \in C |-> Empty] /\ pend = [t \in T |-> None] /\ l = 1 /\ TLCSet(1, 1)
Start == st' = [c \in C |-> Empty] /\ pend' = [t \in T |-> None]
Call(e) == pend[e.t] = None /\ pend' = [pend EXCEPT ![e.t] = [op |-> e.op, arg |-> e.arg, cpu |-> e.cpu, val |-> e.val, lin |-> FALSE]] /\ UNCHANGED st
Lin(t) == LET o == pend[t] IN
          /\ IF o = None THEN FALSE ELSE ~o.lin
          /\ IF o.cpu \in C THEN Can(st[o.cpu], t, o, o) ELSE FALSE
          /\ st' = [st EXCEPT ![o.cpu] = Do(st[o.cpu], t, o, o)]
          /\ pend' = [pend EXCEPT ![t].lin = TRUE]
Ret(e) == /\ IF pend[e.t] = None THEN FALSE ELSE pend[e.t].lin
          /\ pend' = [pend EXCEPT ![e.t] = None] /\ UNCHANGED st
\* final contents; lists and buffers read from the top resp. the bottom
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
End(e) == /\ \A c \in C : LET x == e.cpus[c + 1] IN /\ x.ctr = st[c].ctr /\ x.dat = st[c].dat /\ (x.lock = 0) = (st[c].lock = -1)
                                                   /\ x.list = st[c].list /\ Rev(x.buf) = st[c].buf /\ Rev(x.mbuf) = st[c].mbuf
          /\ UNCHANGED <<st, pend>>
Ev(e) == CASE e.e = "start" -> Start
           [] e.e = "call" -> Call(e)
           [] e.e = "ret" -> Ret(e)
           [] e.e = "end" -> End(e)
           [] OTHER -> FALSE
\* an operation is ordered no later than necessary: only when some return (or a call) could need it
Next == \/ l <= Len(Trace) /\ Ev(Trace[l]) /\ l' = l + 1
        \/ l <= Len(Trace) /\ Trace[l].e = "ret" /\ (\E t \in T : Lin(t)) /\ UNCHANGED l
Spec == Init /\ [][Next]_vars
RegL == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
