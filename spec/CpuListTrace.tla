---------------------------- MODULE CpuListTrace ----------------------------
(* Accepts logs of CPU detection (harness/smp.c). Each "detect" event carries what the operating system offered and the answer. *)
EXTENDS CpuList, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES known, l
vars == <<known, l>>
Chk(name, x) == IF x THEN TRUE ELSE PrintT("REASON " \o ToString(l) \o " " \o name) /\ FALSE
Init == known = 0 /\ l = 1 /\ TLCSet(1, 1)
Detected(e) ==
  LET want == Detect(e.rs, e.conf, {e.dirs[i] : i \in DOMAIN e.dirs})
  IN /\ Assert(Proper(e.rs), "driver: improper ranges")
     /\ Assert(e.rs = <<>> \/ e.text = ListText(e.rs) \o (IF e.nl = 1 THEN <<NL>> ELSE <<>>), "driver: text is not the kernel's")
     /\ Chk("detected count", e.rc = IF known # 0 THEN known ELSE want)
     /\ Chk("descriptor left open", e.fds = 0)
     /\ known' = e.rc
Step(e) == CASE e.e = "start" -> known' = 0
             [] e.e = "detect" -> Detected(e)
             [] e.e = "crash" -> Chk("crashed", FALSE)
             [] e.e = "hang" -> Chk("did not return", FALSE)
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
RegL == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
