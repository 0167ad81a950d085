------------------------------ MODULE NumaTrace ------------------------------
(* Accepts logs of the NUMA driver (harness/numa.c). *)
EXTENDS Numa, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, runs, failed, l
vars == <<c, runs, failed, l>>
Chk(name, x) == IF x THEN TRUE ELSE PrintT("REASON " \o ToString(l) \o " " \o name) /\ FALSE
Init == c = [on |-> FALSE] /\ runs = <<>> /\ failed = 0 /\ l = 1 /\ TLCSet(1, 1)
Call(e) == c' = [on |-> TRUE, n |-> e.n, cpu |-> e.cpu, node |-> e.node, flags |-> e.flags, lib |-> e.lib] /\ runs' = <<>> /\ failed' = 0
Move(e) == /\ Chk("move request in a valid call", c.on /\ Valid(c.flags, c.node) /\ c.lib = 1)
           /\ Chk("own process", e.pid = 1)
           /\ Chk("flags", e.flags = c.flags)
           /\ Chk("every page goes to the node of the CPU", e.nodes = <<c.node>>)
           /\ Chk("pages of the area", AllFresh(runs, e.runs, c.n))
           /\ runs' = JoinAll(runs, e.runs) /\ failed' = (IF e.ret < 0 THEN 0 - e.ret ELSE failed) /\ UNCHANGED c
Ret(e) == /\ Chk("return of a call", c.on)
          /\ IF c.lib = 0 THEN Chk("refused without NUMA support", e.rc = -1 /\ e.err = 38)
             ELSE IF ~Valid(c.flags, c.node) THEN Chk("refused", e.rc = -1 /\ (c.flags # 0 \/ e.err = 22))
             ELSE IF failed # 0 THEN Chk("the kernel's error", e.rc = -1 /\ e.err = failed)
             ELSE Chk("success", e.rc = 0) /\ Chk("every page exactly once", ExactlyOnce(runs, c.n))
          /\ c' = [on |-> FALSE] /\ UNCHANGED <<runs, failed>>
Step(e) == CASE e.e = "start" -> c' = [on |-> FALSE] /\ runs' = <<>> /\ failed' = 0
             [] e.e = "call" -> Call(e)
             [] e.e = "move" -> Move(e)
             [] e.e = "ret" -> Ret(e)
             [] e.e = "pool" -> Chk("pool created with the NUMA helper as init function", e.ok = 1 /\ e.calls = e.want) /\ UNCHANGED <<c, runs, failed>>
             [] e.e = "crash" -> Chk("crashed", FALSE)
             [] e.e = "hang" -> Chk("did not return", FALSE)
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
RegL == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
