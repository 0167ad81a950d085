------------------------------ MODULE AreaTrace ------------------------------
(* Accepts logs of queries and of preparations to unload (harness/area.h run natively and by the simulators of lib/xarch.py, harness/unl.c). *)
EXTENDS Area, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP
Only(p, x) == IF Prop = p THEN x ELSE TRUE
VARIABLES l
Chk(name, x) == IF x THEN TRUE ELSE PrintT("REASON " \o ToString(l) \o " " \o name) /\ FALSE
Init == l = 1 /\ TLCSet(1, 1)
Query(e) == Only("C08",
  /\ Chk("area unchanged by queries", e.after = e.b)
  /\ Chk("cpu_start", e.start = CpuStart(e.b, e.be))
  /\ Chk("raw CPU", e.raw = CpuId(e.b, e.be))
  /\ Chk("current CPU", e.cpu = CurrentCpu(e.b, e.be, e.os))
  /\ Chk("node id available", (e.nav # 0) = Covers(e.size, NodeEnd))
  /\ Chk("concurrency id available", (e.cav # 0) = Covers(e.size, CidEnd))
  /\ Chk("node id", e.nav = 0 \/ e.nid = NodeId(e.b, e.be))
  /\ Chk("concurrency id", e.cid = MmCid(e.b, e.be)))
Unload(e) == Only("C22", Chk("no critical section left in the area, nothing else changed", Cleared(e.b, e.after)))
\* a helper of the code to be unloaded ran before; e.used says whether it left its descriptor's address behind
Survive(e) == Only("C22", Chk("killed after unloading", e.sig = 0) /\ Chk("helper result", e.rc = e.want) /\ Chk("area refers to unloaded code", e.left = 0))
Step(e) == CASE e.e = "query" -> Query(e)
             [] e.e = "unload" -> Unload(e)
             [] e.e = "survive" -> Survive(e)
             [] e.e = "crash" -> Chk("crashed", FALSE)
             [] e.e = "hang" -> Chk("did not return", FALSE)
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
RegL == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
