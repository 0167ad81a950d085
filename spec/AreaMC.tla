------------------------------- MODULE AreaMC -------------------------------
(* Unloading code that contains critical sections.  Helpers leave the address of their descriptor in the thread's area; the kernel looks at
   it whenever the thread has been interrupted.  Code may be unloaded when every thread has prepared since its last section.
   The address has two halves, written by one store (64-bit) or with the other half always zero (32-bit).                                 *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Variant
VARIABLES cs, loaded, pc, used, killed
vars == <<cs, loaded, pc, used, killed>>
None == <<0, 0>>
Desc == <<1, 1>>    \* low and high half of the descriptor's address
Init == cs = [t \in Threads |-> None] /\ loaded = TRUE /\ pc = [t \in Threads |-> "idle"] /\ used = [t \in Threads |-> FALSE] /\ killed = FALSE
Announce(t) == /\ loaded /\ pc[t] = "idle" /\ ~killed
               /\ cs' = [cs EXCEPT ![t] = Desc] /\ pc' = [pc EXCEPT ![t] = "in"] /\ used' = [used EXCEPT ![t] = TRUE] /\ UNCHANGED <<loaded, killed>>
Finish(t) == pc[t] = "in" /\ ~killed /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<cs, loaded, used, killed>>
\* preemption, migration or signal
Kernel(t) == /\ ~killed /\ cs[t] # None
             /\ IF loaded /\ cs[t] = Desc
                THEN cs' = [cs EXCEPT ![t] = None] /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<loaded, used, killed>>
                ELSE killed' = TRUE /\ UNCHANGED <<cs, loaded, pc, used>>
Other(t) == CHOOSE u \in Threads : u # t
Prepare(t) ==
  /\ pc[t] = "idle" /\ ~killed
  /\ cs' = (CASE Variant = "NoClear" -> cs
              [] Variant = "HalfClear" -> [cs EXCEPT ![t] = <<0, cs[t][2]>>]
              [] Variant = "OtherThread" -> [cs EXCEPT ![Other(t)] = None]
              [] OTHER -> [cs EXCEPT ![t] = None])
  /\ used' = [used EXCEPT ![t] = FALSE] /\ UNCHANGED <<loaded, pc, killed>>
Unload == loaded /\ ~killed /\ (\A t \in Threads : ~used[t]) /\ loaded' = FALSE /\ UNCHANGED <<cs, pc, used, killed>>
Load == ~loaded /\ ~killed /\ loaded' = TRUE /\ UNCHANGED <<cs, pc, used, killed>>
Next == Unload \/ Load \/ \E t \in Threads : Announce(t) \/ Finish(t) \/ Kernel(t) \/ Prepare(t)
Spec == Init /\ [][Next]_vars
Survives == ~killed
NoDangling == \A t \in Threads : ~loaded => cs[t] = None
Ok == Survives /\ NoDangling
=============================================================================
