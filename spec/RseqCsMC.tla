------------------------------ MODULE RseqCsMC ------------------------------
(* The helpers' published algorithm, one micro-instruction at a time, under a kernel that may interrupt the thread
   anywhere: every visible step must be allowed by RseqCs.  Fault selects a broken variant (expected violations). *)
EXTENDS Integers, Sequences
CONSTANT Fault
Mod4(a, b) == (a + b) % 4
R == INSTANCE RseqCs WITH Plus <- Mod4
W == 0..3
VARIABLES c, th, at, m, dst, pc, r, cs, irqs, good
vars == <<c, th, at, m, dst, pc, r, cs, irqs, good>>
Src == <<1, 2>>
Calls ==
  LET mk(op, a) == [op |-> op, mode |-> 0, mo |-> 0, cpu |-> 1, a |-> a, len |-> IF op = "mcs" THEN 2 ELSE 0] IN
  {mk("cbne", <<0, e, n>>) : e \in 0..1, n \in 1..2} \cup {mk("cbeq", <<0, e, o, 1>>) : e \in 0..1, o \in 0..1}
  \cup {mk("add", <<0, k>>) : k \in 0..3} \cup {mk("llla", <<0, o, k>>) : o \in 0..1, k \in 0..1}
  \cup {mk("cbne2", <<0, e, 1, f, n>>) : e \in 0..1, f \in 0..1, n \in 1..2} \cup {mk("ss", <<0, e, 1, f, n>>) : e \in 0..1, f \in 0..1, n \in 1..2}
  \cup {mk("mcs", <<0, e, 2, 3, 2, n>>) : e \in 0..1, n \in 1..2}
Modes == {[x EXCEPT !.mode = md] : x \in Calls, md \in {0, 1}}
Init == /\ c \in Modes
        /\ th \in [cpu : {0, 1}, cid : {0, 1}]
        /\ m \in [W -> 0..2] /\ m[3] = 1 /\ dst = <<0, 0>>
        /\ at = R!NoAtt /\ pc = "pre" /\ r = 0 /\ cs = FALSE /\ irqs = 0 /\ good = TRUE
Range == (IF Fault = "LateStart" THEN {} ELSE {"s"}) \cup {"ld", "ld2", "p1", "p2", "c"} \cup (IF Fault = "LateEnd" THEN {"post"} ELSE {})
HasCmp2 == c.op = "cbne2"
Prep1 == IF c.op \in {"ss", "cbeq", "mcs"} THEN "p1" ELSE "c"
AfterCmp == IF Fault = "PrepAfter" /\ c.op \in {"ss", "cbeq", "mcs"} THEN "c" ELSE Prep1
Frame == UNCHANGED <<c, th, irqs>>
\* micro-instructions
Arm == pc = "pre" /\ pc' = "s" /\ cs' = TRUE /\ at' = R!Begun /\ UNCHANGED <<m, dst, r, good>> /\ Frame
Cpu == pc = "s" /\ pc' = (IF Fault = "NoCpu" \/ R!CpuOk(c, th) THEN "ld" ELSE "ab")
       /\ UNCHANGED <<m, dst, r, at, cs, good>> /\ Frame
Ld == pc = "ld" /\ r' = m[c.a[1]]
      /\ pc' = (CASE c.op \in {"cbne", "cbne2", "ss", "mcs"} -> IF r' # c.a[2] THEN "ne" ELSE IF HasCmp2 THEN "ld2" ELSE AfterCmp
                  [] c.op = "cbeq" -> IF r' = c.a[2] THEN "ne" ELSE AfterCmp
                  [] OTHER -> "c")
      /\ UNCHANGED <<m, dst, at, cs, good>> /\ Frame
Ld2 == pc = "ld2" /\ pc' = (IF m[c.a[3]] # c.a[4] THEN "ne" ELSE "c") /\ UNCHANGED <<m, dst, r, at, cs, good>> /\ Frame
\* preparatory stores
Store(a, v) == /\ m' = [m EXCEPT ![a] = v]
               /\ IF R!MayStorePrep(c, th, at, m) /\ R!PrepWord(c, m, a, v) THEN UNCHANGED <<at, good>>
                  ELSE /\ good' = (good /\ (m[a] = v \/ R!MayCommit(c, th, at, m, dst, Src, a, v)))
                       /\ at' = [at EXCEPT !.com = m[a] # v \/ @]
Byte(i) == /\ dst' = [dst EXCEPT ![i + 1] = Src[i + 1]]
           /\ good' = (good /\ R!MayStorePrep(c, th, at, m) /\ R!PrepByte(c, Src, i, Src[i + 1]))
P1 == /\ pc = "p1"
      /\ CASE c.op = "ss" -> Store(c.a[3], c.a[4]) /\ UNCHANGED dst
           [] c.op = "cbeq" -> Store(c.a[4], r) /\ UNCHANGED dst
           [] c.op = "mcs" -> Byte(0) /\ UNCHANGED <<m, at>>
      /\ pc' = (IF c.op = "mcs" THEN "p2" ELSE IF Fault = "PrepAfter" THEN "post" ELSE "c") /\ UNCHANGED <<r, cs>> /\ Frame
P2 == pc = "p2" /\ Byte(1) /\ pc' = (IF Fault = "PrepAfter" THEN "post" ELSE "c") /\ UNCHANGED <<m, at, r, cs>> /\ Frame
Commit == /\ pc = "c"
          /\ LET val == CASE c.op = "cbne" -> c.a[3] [] c.op \in {"cbne2", "ss"} -> c.a[5] [] c.op = "mcs" -> c.a[6]
                          [] c.op = "add" -> Mod4(r, c.a[2]) [] c.op = "cbeq" -> m[Mod4(r, c.a[3])]
                          [] c.op = "llla" -> Mod4(m[m[Mod4(r, c.a[2])]], c.a[3])
                 a == IF c.op = "llla" THEN m[Mod4(r, c.a[2])] ELSE c.a[1]
             IN Store(a, val) /\ UNCHANGED dst
          /\ pc' = (IF Fault = "PrepAfter" /\ c.op \in {"ss", "cbeq", "mcs"} THEN "p1" ELSE "post") /\ UNCHANGED <<r, cs>> /\ Frame
Ret == /\ pc \in {"post", "ne", "ab"} /\ pc' = "done"
       /\ good' = (good /\ R!MayReturn(c, th, at, m, dst, Src, CASE pc = "post" -> 0 [] pc = "ne" -> 1 [] pc = "ab" -> -1))
       /\ UNCHANGED <<m, dst, r, at, cs>> /\ Frame
\* the kernel: preemption, migration, others running meanwhile
Irq == /\ irqs < 2 /\ pc # "done" /\ irqs' = irqs + 1
       /\ LET hit == cs /\ pc \in Range /\ Fault # "NoAbort"
              res == IF hit THEN "abort" ELSE IF cs THEN "clear" ELSE "none" IN
          /\ pc' = IF hit THEN "ab" ELSE pc
          /\ at' = R!Interrupted(c, th, at, m, dst, Src, res)
          /\ good' = (good /\ ~(hit /\ at.com))
       /\ cs' = FALSE
       /\ th' \in [cpu : {0, 1}, cid : {0, 1}]
       /\ \E a \in 0..1, v \in 0..2 : m' = [m EXCEPT ![a] = v]
       /\ UNCHANGED <<c, dst, r>>
Next == Arm \/ Cpu \/ Ld \/ Ld2 \/ P1 \/ P2 \/ Commit \/ Ret \/ Irq
Spec == Init /\ [][Next]_vars
Allowed == good
=============================================================================
