----------------------------- MODULE RseqRegMC -----------------------------
(* The library's initialisation and registration protocol, step by step, for concurrent threads, against the rules of RseqReg.
   Variant selects a faulty protocol (each must be rejected).                                                        *)
EXTENDS RseqReg, TLC
CONSTANTS Threads, Variant, MaxFail, Rounds
VARIABLES c, initDone, lock, owner, size, klen, kcalls, pc, loc, fails, round, seen
vars == <<c, initDone, lock, owner, size, klen, kcalls, pc, loc, fails, round, seen>>
Cfgs == [mask : {0, 3, 7}, lsize : {0, 20, 28, 32, 40}, aux : {0, 28, 32, 40}, kern : {0, 1}]
Sane(x) == x.lsize \in {0, 20, 32} \/ x.lsize <= KFeat(x)
Uninit == 99999
Init == /\ c \in {x \in Cfgs : Sane(x)}
        /\ initDone = 0 /\ lock = "free" /\ owner = 0 /\ size = Uninit
        /\ klen = [t \in Threads |-> 0] /\ kcalls = 0 /\ pc = [t \in Threads |-> "idle"]
        /\ loc = [t \in Threads |-> 0] /\ fails = 0 /\ round = [t \in Threads |-> 0] /\ seen = {}
To(t, p) == pc' = [pc EXCEPT ![t] = p]
Go(t) == pc[t] = "idle" /\ round[t] < Rounds /\ To(t, "chk") /\ round' = [round EXCEPT ![t] = @ + 1]
         /\ UNCHANGED <<c, initDone, lock, owner, size, klen, kcalls, loc, fails, seen>>
Check1(t) == pc[t] = "chk" /\ To(t, IF initDone = 1 THEN "inited" ELSE "lock")
             /\ UNCHANGED <<c, initDone, lock, owner, size, klen, kcalls, loc, fails, round, seen>>
Lock(t) == pc[t] = "lock" /\ lock = "free" /\ lock' = "held" /\ To(t, "chk2")
           /\ UNCHANGED <<c, initDone, owner, size, klen, kcalls, loc, fails, round, seen>>
Check2(t) == pc[t] = "chk2" /\ To(t, IF initDone = 1 /\ Variant # "NoRecheck" THEN "unlock" ELSE "i1")
             /\ initDone' = (IF Variant = "EarlyPublish" THEN 1 ELSE initDone)
             /\ UNCHANGED <<c, lock, owner, size, klen, kcalls, loc, fails, round, seen>>
I1(t) == pc[t] = "i1" /\ owner' = (IF LibcOwns(c) THEN 0 ELSE 1) /\ To(t, "i2")
         /\ UNCHANGED <<c, initDone, lock, size, klen, kcalls, loc, fails, round, seen>>
I2(t) == pc[t] = "i2" /\ (size' = InitSize(c)) /\ To(t, "i3")
         /\ UNCHANGED <<c, initDone, lock, owner, klen, kcalls, loc, fails, round, seen>>
I3(t) == pc[t] = "i3" /\ initDone' = 1 /\ To(t, "unlock")
         /\ UNCHANGED <<c, lock, owner, size, klen, kcalls, loc, fails, round, seen>>
Unlock(t) == pc[t] = "unlock" /\ lock' = "free" /\ To(t, "inited")
             /\ UNCHANGED <<c, initDone, owner, size, klen, kcalls, loc, fails, round, seen>>
LenOf == IF Variant = "LenFromSize" THEN Max(OrigArea, size) ELSE AreaLen(c)
\* register, or unregister if already registered
Call(t) == /\ pc[t] = "inited"
           /\ IF owner = 0 THEN /\ To(t, "ret") /\ loc' = [loc EXCEPT ![t] = 0] /\ seen' = seen \cup {<<"libc", size>>}
                                /\ UNCHANGED <<klen, kcalls, fails>>
              ELSE IF klen[t] # 0
              THEN /\ loc' = [loc EXCEPT ![t] = KernelUnreg(c, klen[t], LenOf)]
                   /\ klen' = [klen EXCEPT ![t] = IF loc'[t] = 0 THEN 0 ELSE @]
                   /\ kcalls' = kcalls + 1 /\ To(t, "ret") /\ seen' = seen \cup {<<"unreg", loc'[t]>>} /\ UNCHANGED fails
              ELSE \E f \in {0, 1} :
                   /\ f = 1 => fails < MaxFail
                   /\ fails' = fails + f
                   /\ loc' = [loc EXCEPT ![t] = IF f = 1 THEN EINVAL ELSE KernelReg(c, klen[t], LenOf)]
                   /\ klen' = [klen EXCEPT ![t] = IF loc'[t] = 0 THEN LenOf ELSE 0]
                   /\ kcalls' = kcalls + 1 /\ To(t, "reg2") /\ UNCHANGED seen
           /\ UNCHANGED <<c, initDone, lock, owner, size, round>>
\* after the system call: size decides between returning, publishing and terminating
Reg2(t) == /\ pc[t] = "reg2"
           /\ IF loc[t] # 0 THEN To(t, IF size > 0 THEN "dead" ELSE "ret") /\ UNCHANGED seen
              ELSE IF size = 0 THEN To(t, "reg3") /\ UNCHANGED seen ELSE To(t, "ret") /\ seen' = seen \cup {<<"reg", size>>}
           /\ UNCHANGED <<c, initDone, lock, owner, size, klen, kcalls, loc, fails, round>>
Reg3(t) == pc[t] = "reg3" /\ size' = KFeat(c) /\ To(t, "ret") /\ seen' = seen \cup {<<"reg", KFeat(c)>>}
           /\ UNCHANGED <<c, initDone, lock, owner, klen, kcalls, loc, fails, round>>
Ret(t) == pc[t] = "ret" /\ To(t, "idle") /\ UNCHANGED <<c, initDone, lock, owner, size, klen, kcalls, loc, fails, round, seen>>
Alive == \A t \in Threads : pc[t] # "dead"
Next == Alive /\ \E t \in Threads : Go(t) \/ Check1(t) \/ Lock(t) \/ Check2(t) \/ I1(t) \/ I2(t) \/ I3(t) \/ Unlock(t) \/ Call(t) \/ Reg2(t) \/ Reg3(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Ok == /\ LibcOwns(c) => kcalls = 0
      /\ \A x \in seen : CASE x[1] = "libc" -> LibcOwns(c) /\ x[2] = LibcSize(c)
                           [] x[1] = "unreg" -> x[2] = 0
                           [] x[1] = "reg" -> ~LibcOwns(c) /\ x[2] = KFeat(c) /\ x[2] <= AreaLen(c)
      /\ \A t \in Threads : klen[t] # 0 => klen[t] >= KFeat(c)
      \* a registered thread implies nobody sees size zero for good; terminated only after an incoherent failure
      /\ ~Alive => fails > 0
SizeSteps == [][size' # size => size = Uninit \/ (size = 0 /\ size' = KFeat(c) /\ \E t \in Threads : klen[t] # 0 \/ pc[t] = "reg3")]_vars
=============================================================================
