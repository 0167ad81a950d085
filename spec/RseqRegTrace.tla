---------------------------- MODULE RseqRegTrace ----------------------------
(* Accepts a log of the registration driver (harness/reg.c) iff RseqReg allows it. *)
EXTENDS RseqReg, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP
Only(p, x) == IF Prop = p THEN x ELSE TRUE
T == 0..3
VARIABLES c, size, klen, dead, conc, l
vars == <<c, size, klen, dead, conc, l>>
Chk(name, x) == IF x THEN TRUE ELSE PrintT("REASON " \o ToString(l) \o " " \o name) /\ FALSE
None == [mask |-> -1]
Init == c = None /\ size = 0 /\ klen = [t \in T |-> 0] /\ dead = TRUE /\ conc = {} /\ l = 1 /\ TLCSet(1, 1)
Start(e) ==
  /\ c' = [mask |-> e.mask, lsize |-> e.lsize, aux |-> e.aux, kern |-> e.kern]
  /\ size' = (IF Prop = "C07" /\ LibcOwns(c') /\ e.stripped = 0 THEN e.size ELSE InitSize(c'))
  /\ klen' = [t \in T |-> 0] /\ dead' = FALSE /\ conc' = {}
  /\ e.stripped = 1 \/ (/\ Only("C08", Chk("initial size", e.size = size'))
                        /\ Only("C07", Chk("initial size is zero or the C library's", (e.size = 0) = (size' = 0)))
                        /\ Only("C08", Chk("offset of the C library's area", e.offok = 1))
                        /\ Only("C08", Chk("flags", e.flok = 1)))
Own(s) == Chk("the thread's own area", s.own = 1) /\ Chk("signature", s.sig = 1)
SizeOk(e, want) == Chk("size", e.size = want)
Reg(e) ==
  /\ Only("C07", Chk("number of system calls", Len(e.sys) = Calls(c)))
  /\ Only("C07", Chk("memory next to the area", e.can = 1))
  /\ IF LibcOwns(c) THEN /\ Only("C07", Chk("succeeds", e.rc = 0)) /\ SizeOk(e, size)
                         /\ UNCHANGED <<c, size, klen, dead, conc>>
     ELSE LET s == e.sys[Len(e.sys)] IN
       /\ Only("C07", Own(s) /\ Chk("flags", s.fl = 0) /\ Chk("length covers the advertised features", s.ret # 0 \/ s.len >= e.size))
       /\ Only("C07", Chk("return code", e.rc = (IF RegOutcome(c, IF e.t \in conc THEN 0 ELSE size, s.ret) = "ok" THEN 0 ELSE -1)))
       /\ Only("C07", Chk("not terminated after an incoherent failure", e.t \in conc \/ RegOutcome(c, size, s.ret) # "die"))
       /\ Only("C08", Chk("size within area and kernel", s.ret # 0 \/ e.size <= Min(s.len, KFeat(c))))
       /\ Only("C08", Chk("size is the kernel's", s.ret # 0 \/ s.len < KFeat(c) \/ e.size = KFeat(c)))
       /\ Only("C07", Chk("size set by the first registration", s.ret # 0 \/ e.size > 0))
       /\ size' = (IF size = 0 /\ (s.ret = 0 \/ e.t \in conc) THEN e.size ELSE size)
       /\ SizeOk(e, size')
       /\ klen' = (IF s.ret = 0 THEN [klen EXCEPT ![e.t] = s.len] ELSE klen)
       /\ conc' = conc \ {e.t}
       /\ UNCHANGED <<c, dead>>
Unreg(e) ==
  /\ Only("C07", Chk("number of system calls", Len(e.sys) = Calls(c)))
  /\ Only("C07", Chk("memory next to the area", e.can = 1))
  /\ SizeOk(e, size)
  /\ IF LibcOwns(c) THEN Only("C07", Chk("succeeds", e.rc = 0)) /\ UNCHANGED klen
     ELSE LET s == e.sys[Len(e.sys)] IN
       /\ Only("C07", Own(s) /\ Chk("flags", s.fl = 1))
       /\ Only("C07", Chk("same length as registered", klen[e.t] = 0 \/ s.len = klen[e.t]))
       /\ Only("C07", Chk("return code", e.rc = (IF UnregOutcome(c, s.ret) = "ok" THEN 0 ELSE -1)))
       /\ klen' = (IF s.ret = 0 THEN [klen EXCEPT ![e.t] = 0] ELSE klen)
  /\ UNCHANGED <<c, size, dead, conc>>
Died(e) ==
  /\ Chk("terminated", e.sig = 6 /\ e.op = "reg" /\ Len(e.sys) > 0)
  /\ Only("C07", Chk("terminated without an incoherent failure", (size > 0 \/ e.t \in conc) /\ e.sys[Len(e.sys)].ret # 0 /\ ~LibcOwns(c)))
  /\ dead' = TRUE /\ UNCHANGED <<c, size, klen, conc>>
Avail(e) == /\ Only("C08", Chk("availability", (e.rc # 0) = Available(c, e.q)))
            /\ Only("C07", Chk("a query registers nothing", \A i \in DOMAIN e.sys : e.sys[i].ret # 0))
            /\ SizeOk(e, size) /\ UNCHANGED <<c, size, klen, dead, conc>>
Query(e) ==
  /\ Only("C08", /\ Chk("raw", e.raw = e.acpu) /\ Chk("start", e.start = e.ast)
                 /\ Chk("current CPU", e.cpu = CurrentCpu(e.acpu, e.fb))
                 /\ Chk("node id available", (e.nav # 0) = NodeIdAvailable(size))
                 /\ Chk("mm_cid available", (e.cav # 0) = MmCidAvailable(size))
                 /\ Chk("mm_cid", e.cid = e.acid)
                 /\ Chk("node id", e.nav = 0 \/ e.nid = e.anode)
                 /\ Chk("registered thread has a CPU", klen[e.t] = 0 \/ e.acpu >= 0))
  /\ Only("C07", Chk("memory next to the area", e.can = 1))
  /\ Only("C07", Chk("a query registers nothing", e.sys = <<>>))
  /\ SizeOk(e, size) /\ UNCHANGED <<c, size, klen, dead, conc>>
Node(e) == Only("C08", Chk("fallback node", e.rc = e.want)) /\ SizeOk(e, size) /\ UNCHANGED <<c, size, klen, dead, conc>>
\* the process exits and the library has been shut down: it advertises nothing any more, unless the C library is the owner
Gone(e) == /\ Only("C08", Chk("node id available at exit", (e.nav # 0) = (LibcOwns(c) /\ NodeIdAvailable(size))))
           /\ Only("C08", Chk("mm_cid available at exit", (e.cav # 0) = (LibcOwns(c) /\ MmCidAvailable(size))))
           /\ UNCHANGED <<c, size, klen, dead, conc>>
Step(e) == CASE e.e = "start" -> Start(e)
             [] e.e = "gone" -> Gone(e)
             [] e.e = "conc" -> conc' = {e.t[i] : i \in DOMAIN e.t} /\ UNCHANGED <<c, size, klen, dead>>
             [] e.e = "reg" -> Reg(e)
             [] e.e = "unreg" -> Unreg(e)
             [] e.e = "died" -> Died(e)
             [] e.e = "avail" -> Avail(e)
             [] e.e = "query" -> Query(e)
             [] e.e = "node" -> Node(e)
             [] e.e = "exit" -> klen' = [klen EXCEPT ![e.t] = 0] /\ UNCHANGED <<c, size, dead, conc>>
             [] e.e = "end" -> UNCHANGED <<c, size, klen, dead, conc>>
             [] e.e = "crash" -> Chk("crashed", FALSE)
             [] e.e = "hang" -> Chk("did not return", FALSE)
Next == l <= Len(Trace) /\ Chk("call after termination", Trace[l].e = "start" \/ ~dead) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
RegL == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
