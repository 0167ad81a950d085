-------------------------------- MODULE Area --------------------------------
(* A thread's rseq area as the kernel lays it out (bytes, lowest address first), on any architecture:
     0 cpu_id_start  4 cpu_id  8..15 address of the critical section  16 flags  20 node_id  24 mm_cid
   what the queries have to answer from it, and what preparing to unload does to it.               *)
EXTENDS Integers, Sequences
Rev4(s) == <<s[4], s[3], s[2], s[1]>>
\* the 32-bit field at an offset, least significant byte first
Field(b, off, be) == LET s == SubSeq(b, off + 1, off + 4) IN IF be = 1 THEN Rev4(s) ELSE s
Negative(f) == f[4] >= 128
CpuStart(b, be) == Field(b, 0, be)
CpuId(b, be) == Field(b, 4, be)
NodeId(b, be) == Field(b, 20, be)
MmCid(b, be) == Field(b, 24, be)
CurrentCpu(b, be, os) == IF Negative(CpuId(b, be)) THEN os ELSE CpuId(b, be)
Covers(size, end) == size >= end
NodeEnd == 24
CidEnd == 28
\* the kernel reads 64 bits of address whatever the architecture
NoSection(b) == \A i \in 9..16 : b[i] = 0
Cleared(b, b2) == Len(b) = Len(b2) /\ NoSection(b2) /\ \A i \in DOMAIN b : i \in 9..16 \/ b2[i] = b[i]
=============================================================================
