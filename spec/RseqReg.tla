------------------------------ MODULE RseqReg ------------------------------
(* Registration of restartable sequences: who owns it, what the kernel is told, what the library advertises.
   A configuration c has: mask (which of the C library's three symbols exist), lsize (the size it publishes),
   aux (AT_RSEQ_FEATURE_SIZE, 0 = absent), kern (1 if the system call exists).                              *)
EXTENDS Integers, Sequences, FiniteSets
OrigFeat == 20
OrigArea == 32
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
KFeat(c) == IF c.aux = 0 THEN OrigFeat ELSE c.aux
LibcOwns(c) == c.mask = 7 /\ c.lsize # 0
\* glibc publishes 32 or 20 while its area is 32 bytes, whatever the kernel knows
LibcSize(c) == IF c.lsize \in {OrigFeat, OrigArea} THEN Min(OrigArea, KFeat(c)) ELSE c.lsize
InitSize(c) == IF LibcOwns(c) THEN LibcSize(c) ELSE 0
AreaLen(c) == Max(OrigArea, KFeat(c))

ENOSYS == -38  EINVAL == -22  EBUSY == -16
\* the kernel: klen is the length the thread is registered with, 0 if it is not
KernelReg(c, klen, len) == IF c.kern = 0 THEN ENOSYS
                           ELSE IF klen # 0 THEN (IF klen = len THEN EBUSY ELSE EINVAL)
                           ELSE IF len < OrigArea \/ (len # OrigArea /\ len < KFeat(c)) THEN EINVAL ELSE 0
KernelUnreg(c, klen, len) == IF c.kern = 0 THEN ENOSYS ELSE IF klen = 0 \/ klen # len THEN EINVAL ELSE 0

\* one call of the library, given the kernel's answer ret: what the caller sees
Calls(c) == IF LibcOwns(c) THEN 0 ELSE 1
RegOutcome(c, size, ret) == IF LibcOwns(c) THEN "ok" ELSE IF ret = 0 THEN "ok" ELSE IF size > 0 THEN "die" ELSE "fail"
RegSize(c, size, ret) == IF LibcOwns(c) THEN size ELSE IF ret = 0 THEN KFeat(c) ELSE size
UnregOutcome(c, ret) == IF LibcOwns(c) \/ ret = 0 THEN "ok" ELSE "fail"
Available(c, q) == CASE q = 0 -> c.kern = 1 [] q = 1 -> LibcOwns(c) [] OTHER -> FALSE
CurrentCpu(area, os) == IF area >= 0 THEN area ELSE os
NodeIdAvailable(size) == size >= 24
MmCidAvailable(size) == size >= 28
=============================================================================
