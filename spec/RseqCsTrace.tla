---------------------------- MODULE RseqCsTrace ----------------------------
(* Accepts a log of the stepping driver (harness/cs.c) iff every call is allowed by RseqCs. *)
EXTENDS Words, TLC, Json, IOUtils, FiniteSets
\* machine words of the architecture: 64 bits, or 32 bits held in the two low limbs
Narrow == IOEnv.WORD = "32"
Add(x, y) == LET s == WAdd(x, y) IN IF Narrow THEN <<s[1], s[2], 0, 0>> ELSE s
R == INSTANCE RseqCs WITH Plus <- Add

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
\* the property being decided; facts that belong to one property only are enforced for that one
Prop == IOEnv.PROP
Only(ps, x) == IF Prop \in ps THEN x ELSE TRUE
KnownK1 == IOEnv.KNOWN_K1 = "1"

VARIABLES c, th, at, m, dst, src, nat, l
vars == <<c, th, at, m, dst, src, nat, l>>
Chk(name, x) == IF x THEN TRUE ELSE PrintT("REASON " \o ToString(l) \o " " \o name) /\ FALSE
Idle == [op |-> "idle"]
Init == c = Idle /\ th = [cpu |-> 0, cid |-> 0] /\ at = R!NoAtt /\ m = <<>> /\ dst = <<>> /\ src = <<>> /\ nat = <<>> /\ l = 1 /\ TLCSet(1, 1)

DescOk(e) == /\ Chk("descriptor alignment", e.al = 1) /\ Chk("descriptor version", e.ver = 0) /\ Chk("descriptor flags", e.fl = 0)
             /\ Chk("signature before abort handler", e.sig = 1) /\ Chk("descriptor listed", e.listed = 1)
             /\ Chk("abort handler outside the section", e.out = 1) /\ Chk("section starts where it is announced", e.start = 1)
MemOf(s) == [a \in {s[i][1] : i \in DOMAIN s} |-> (CHOOSE p \in {s[i] : i \in DOMAIN s} : p[1] = a)[2]]
\* pattern of the driver
SrcPat(n) == [i \in 1..n |-> 1 + (((i - 1) * 37 + (i - 1) \div 251) % 250)]
DstPat(n) == [i \in 1..n |-> 238]
Call(e) ==
  LET n == IF e.len < 0 THEN 0 ELSE e.len
      \* K1: the concurrency id of a thread that is not registered reads as zero
      cid == IF e.reg = 1 THEN e.cid ELSE IF KnownK1 /\ e.mode = 1 /\ e.cpu = 0 THEN 0 ELSE -1
  IN /\ Chk("call while idle", c.op = "idle")
     /\ c' = [op |-> e.op, mode |-> e.mode, mo |-> e.mo, cpu |-> e.cpu, a |-> e.a, len |-> n, how |-> e.how, big |-> e.len < 0, huge |-> e.len = -2]
     /\ th' = [cpu |-> IF e.reg = 1 THEN e.cpuid ELSE -1, cid |-> cid]
     /\ at' = R!NoAtt /\ m' = MemOf(e.m) /\ nat' = MemOf(e.m)
     /\ dst' = DstPat(n) /\ src' = SrcPat(n)
Arm(e) == /\ Only({"C05"}, DescOk(e))
          /\ Chk("section begun in a call", c.op # "idle" /\ R!Supported(c))
          /\ Chk("section begun after the final store", ~at.com)
          /\ at' = R!Begun
          /\ UNCHANGED <<c, th, m, dst, src, nat>>
Disarm(e) == /\ at' = R!Interrupted(c, th, at, m, dst, src, "clear")
             /\ UNCHANGED <<c, th, m, dst, src, nat>>
Irq(e) == LET w == MemOf(e.w) IN
  /\ Chk("section refused by the kernel", e.res \in {"none", "clear", "abort"})
  /\ Chk("aborted after its final store", ~(e.res = "abort" /\ at.com))
  /\ at' = R!Interrupted(c, th, at, m, dst, src, e.res)
  /\ th' = IF th.cpu = -1 THEN th ELSE [cpu |-> e.cpu, cid |-> e.cid]
  /\ m' = [a \in DOMAIN m |-> IF a \in DOMAIN w THEN w[a] ELSE m[a]]
  /\ UNCHANGED <<c, dst, src, nat>>
Stepped == c.how = 0
St(e) == IF ~Stepped
         THEN /\ Chk("store outside the operands", e.a \in DOMAIN nat)
              /\ nat' = [nat EXCEPT ![e.a] = e.v]
              /\ UNCHANGED <<c, th, at, m, dst, src>>
         ELSE IF R!MayStorePrep(c, th, at, m) /\ R!PrepWord(c, m, e.a, e.v)
         THEN /\ m' = [m EXCEPT ![e.a] = e.v] /\ UNCHANGED <<c, th, at, dst, src, nat>>
         ELSE /\ Chk("store not allowed here", R!MayCommit(c, th, at, m, dst, src, e.a, e.v))
              /\ Only({"C05"}, Chk("section ends right after the final store", e.post = 1))
              /\ m' = [m EXCEPT ![e.a] = e.v] /\ at' = [at EXCEPT !.com = TRUE]
              /\ UNCHANGED <<c, th, dst, src, nat>>
Stb(e) == /\ Chk("copied byte", IF Stepped THEN R!MayStorePrep(c, th, at, m) /\ R!PrepByte(c, src, e.i, e.b)
                                ELSE R!PrepByte(c, src, e.i, e.b))
          /\ dst' = [dst EXCEPT ![e.i + 1] = e.b]
          /\ UNCHANGED <<c, th, at, m, src, nat>>
\* without stepping, only the state before and after is seen; a real kernel (how 2, 3) may have interrupted
RetAtomic(e) ==
  LET o == IF ~R!Supported(c) THEN {-1} ELSE IF c.how = 2 THEN {-1}
           ELSE R!Outcomes(c, th, R!Begun, m, src, src)
                \cup (IF R!CpuOk(c, th) /\ R!Match(c, m) THEN {0} ELSE {}) \cup (IF c.how = 3 THEN {-1} ELSE {})
      o1 == IF c.how # 3 /\ R!CpuOk(c, th) THEN o \ {-1} ELSE o
  IN /\ Chk("return code", e.rc \in (IF c.how \in {2, 3} \/ ~R!Supported(c) THEN o ELSE o1))
     /\ Chk("copy longer than the memory there is succeeded", ~(c.huge /\ e.rc = 0))
     /\ IF e.rc = 0 THEN /\ Chk("effect", nat = R!Effect(c, m))
                         /\ Chk("copy", IF c.op # "mcs" THEN TRUE ELSE e.cp = 1)
        ELSE /\ Chk("no effect", IF c.how = 3 THEN nat[R!Target(c, m)] = m[R!Target(c, m)] ELSE nat = m)
             /\ Chk("no copy", IF c.how = 3 THEN TRUE ELSE e.un = 1 \/ c.len = 0)
Ret(e) == /\ Chk("return while idle", c.op # "idle")
          /\ Only({"C02"}, Chk("live values of the caller", e.live = 1))
          /\ IF Stepped THEN Chk("return code", R!MayReturn(c, th, at, m, dst, src, e.rc)) ELSE RetAtomic(e)
          /\ c' = Idle /\ UNCHANGED <<th, at, m, dst, src, nat>>
\* a copy longer than the memory there is can only fault, before the final store; it cannot succeed
Crash(e) == /\ Chk("crashed", IF c.op = "idle" THEN FALSE ELSE c.huge /\ e.sig \in {7, 11})
            /\ Chk("final store before the copy was complete", nat = m)
            /\ c' = Idle /\ UNCHANGED <<th, at, m, dst, src, nat>>
Same == UNCHANGED <<c, th, at, m, dst, src, nat>>
Step(e) == CASE e.e = "call" -> Call(e)
             [] e.e = "arm" -> Arm(e)
             [] e.e = "disarm" -> Disarm(e)
             [] e.e = "irq" -> Irq(e)
             [] e.e = "st" -> St(e)
             [] e.e = "stb" -> Stb(e)
             [] e.e = "ret" -> Ret(e)
             [] e.e = "scan" -> Chk("descriptors exist", e.n > 0) /\ Same
             [] e.e = "desc" -> Only({"C05"}, DescOk(e)) /\ Same
             [] e.e = "badexit" -> Only({"C05"}, Chk("left the section through an undeclared exit", FALSE)) /\ Same
             [] e.e = "area" -> Only({"C02"}, Chk("changed another field of the thread area", FALSE)) /\ Same
             [] e.e = "crash" -> Crash(e)
             [] e.e = "hang" -> Chk("did not return", FALSE)
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Reg == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
