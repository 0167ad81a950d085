------------------------------- MODULE RseqCs -------------------------------
(* What one call of a per-CPU helper may do, whatever happens around it.

   A call runs one or more attempts.  An attempt begins when the thread announces a critical section and is
   over as soon as the kernel interrupts the thread.  While it lasts the thread sees a memory that only it
   changes, and may perform the helper's preparatory stores and then its final store, provided the thread is
   on the requested CPU and the helper's comparison succeeds.  How the call may return is decided by the
   state in which its last attempt ended.  The operators below are shared by the model checked exhaustively
   (RseqCsMC), and by the trace specifications (RseqCsTrace, PercpuTrace).

   Memory is a partial function from addresses to words; the set of values and addition are parameters so
   that models can use small integers and traces 64-bit words.                                             *)
EXTENDS Integers, Sequences
CONSTANTS Plus(_, _)        \* addition of two words

\* a call: [op, mode, mo, cpu, a (operands), len]; operands follow the published pseudo-code
Compares(c) == c.op \in {"cbne", "cbeq", "cbne2", "ss", "mcs"}
Supported(c) == /\ c.mode \in {0, 1}
                /\ c.mo = 0 \/ (c.mo = 3 /\ c.op \in {"ss", "mcs"})
\* thread: [cpu, cid]; -1 when the thread is not registered
CpuOk(c, th) == c.cpu = IF c.mode = 0 THEN th.cpu ELSE th.cid
\* the comparison of the helper succeeds
Match(c, m) == CASE c.op \in {"cbne", "ss", "mcs"} -> m[c.a[1]] = c.a[2]
                 [] c.op = "cbeq"  -> m[c.a[1]] # c.a[2]
                 [] c.op = "cbne2" -> m[c.a[1]] = c.a[2] /\ m[c.a[3]] = c.a[4]
                 [] OTHER -> TRUE
\* where the final store goes and what it writes
Target(c, m) == IF c.op = "llla" THEN m[Plus(m[c.a[1]], c.a[2])] ELSE c.a[1]
Final(c, m)  == CASE c.op = "cbne"  -> c.a[3]
                  [] c.op = "cbeq"  -> m[Plus(m[c.a[1]], c.a[3])]
                  [] c.op = "add"   -> Plus(m[c.a[1]], c.a[2])
                  [] c.op = "llla"  -> Plus(m[Target(c, m)], c.a[3])
                  [] c.op = "cbne2" -> c.a[5]
                  [] c.op = "ss"    -> c.a[5]
                  [] c.op = "mcs"   -> c.a[6]
\* preparatory stores
PrepWord(c, m, a, v) == \/ c.op = "ss" /\ a = c.a[3] /\ v = c.a[4]
                        \/ c.op = "cbeq" /\ a = c.a[4] /\ v = m[c.a[1]]
PrepByte(c, src, i, b) == c.op = "mcs" /\ i \in 0 .. c.len - 1 /\ b = src[i + 1]
PrepDone(c, m, dst, src) == CASE c.op = "ss"   -> m[c.a[3]] = c.a[4]
                              [] c.op = "cbeq" -> m[c.a[4]] = m[c.a[1]]
                              [] c.op = "mcs"  -> dst = src
                              [] OTHER -> TRUE
\* the whole effect of a successful call on word memory
Effect(c, m) == LET p == CASE c.op = "ss" -> [m EXCEPT ![c.a[3]] = c.a[4]]
                           [] c.op = "cbeq" -> [m EXCEPT ![c.a[4]] = m[c.a[1]]]
                           [] OTHER -> m
                IN [p EXCEPT ![Target(c, m)] = Final(c, m)]

\* attempt: st \in {"none", "live", "over"}; com = final store performed; ok = returns allowed once over
NoAtt == [st |-> "none", com |-> FALSE, ok |-> {}]
Begun == [st |-> "live", com |-> FALSE, ok |-> {}]
\* a final store that changes nothing cannot be seen
Silent(c, m, dst, src) == Match(c, m) /\ m[Target(c, m)] = Final(c, m) /\ PrepDone(c, m, dst, src)
MayStorePrep(c, th, at, m) == at.st = "live" /\ ~at.com /\ CpuOk(c, th) /\ Match(c, m)
MayCommit(c, th, at, m, dst, src, a, v) ==
  MayStorePrep(c, th, at, m) /\ PrepDone(c, m, dst, src) /\ a = Target(c, m) /\ v = Final(c, m)
\* returns allowed by a live, uninterrupted attempt
Outcomes(c, th, at, m, dst, src) ==
  IF at.com THEN {0}
  ELSE (IF ~CpuOk(c, th) THEN {-1} ELSE {})
       \cup (IF CpuOk(c, th) /\ Compares(c) /\ ~Match(c, m) THEN {1} ELSE {})
       \cup (IF CpuOk(c, th) /\ Silent(c, m, dst, src) THEN {0} ELSE {})
\* the kernel interrupts the thread: res is what it did about an announced section
Interrupted(c, th, at, m, dst, src, res) ==
  IF at.st # "live" THEN at
  ELSE [st |-> "over", com |-> at.com,
        ok |-> IF res = "abort" THEN (IF at.com THEN {} ELSE {-1}) ELSE Outcomes(c, th, at, m, dst, src)]
MayReturn(c, th, at, m, dst, src, rc) ==
  IF ~Supported(c) THEN rc = -1 /\ at.st = "none"
  ELSE CASE at.st = "none" -> rc = -1 /\ ~CpuOk(c, th)
         [] at.st = "over" -> rc \in at.ok
         [] at.st = "live" -> rc \in Outcomes(c, th, at, m, dst, src)
=============================================================================
