---------------------------- MODULE MempoolCow ----------------------------
(***************************************************************************)
(* Implementation-shaped model of one page of a COW_INIT pool: the shared  *)
(* init page, the per-CPU private mappings of it, and the allocator's      *)
(* "write the init page, then write only those CPUs that do not already    *)
(* read the wanted value".  Thread T allocates, frees and uses item A;     *)
(* other threads store to item B, which lies on the same page, on any CPU. *)
(*                                                                         *)
(* A first store to a page makes the kernel take a private copy.  With     *)
(* SplitCow = FALSE the copy is taken and installed in one step; with      *)
(* TRUE another thread can run between the two, as it can on a real        *)
(* kernel.  The split model violates the content guarantee (finding K2).   *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Cpus, Toks, Poison, Robust, SplitCow, None
ASSUME Poison \notin Toks
Items == {"A", "B"}
VARIABLES init,    \* item -> value in the shared init page
          priv,    \* cpu -> has a private page
          page,    \* cpu -> item -> value, meaningful when private
          copy,    \* cpu -> pending private copy [d: page content] or None
          pc, want, todo, ctrue, alarm
vars == <<init, priv, page, copy, pc, want, todo, ctrue, alarm>>
\* pc of T: "freed" "popcheck" "init" "cpus" "live" "poison" "pcpus"
\* ctrue: cpu -> what item A must read as while live (initial content, or the owner's last store)

View(c, i) == IF priv[c] THEN page[c][i] ELSE init[i]
Init == /\ init = [i \in Items |-> IF Robust /\ i = "A" THEN Poison ELSE 0]
        /\ priv = [c \in Cpus |-> FALSE] /\ page = [c \in Cpus |-> [i \in Items |-> 0]]
        /\ copy = [c \in Cpus |-> None]
        /\ pc = "freed" /\ want = 0 /\ todo = {} /\ ctrue = [c \in Cpus |-> 0] /\ alarm = FALSE

\* a store by the thread using CPU c's copy: writes the private page, taking it first if needed (atomically for T: T is the one faulting)
Store(c, i, v) == /\ priv' = [priv EXCEPT ![c] = TRUE]
                  /\ page' = [page EXCEPT ![c] = IF priv[c] THEN [@ EXCEPT ![i] = v] ELSE [init EXCEPT ![i] = v]]
\* the other threads' stores to B
BStore == \E c \in Cpus, v \in Toks :
            /\ copy[c] = None
            /\ IF priv[c] \/ ~SplitCow THEN Store(c, "B", v) /\ UNCHANGED copy
               ELSE copy' = [copy EXCEPT ![c] = [d |-> [init EXCEPT !["B"] = v]]] /\ UNCHANGED <<priv, page>>
            /\ UNCHANGED <<init, pc, want, todo, ctrue, alarm>>
BInstall == \E c \in Cpus :
            /\ copy[c] # None
            /\ IF priv[c] THEN page' = [page EXCEPT ![c]["B"] = copy[c].d["B"]] /\ UNCHANGED priv    \* lost the race to install: store again
               ELSE priv' = [priv EXCEPT ![c] = TRUE] /\ page' = [page EXCEPT ![c] = copy[c].d]
            /\ copy' = [copy EXCEPT ![c] = None]
            /\ UNCHANGED <<init, pc, want, todo, ctrue, alarm>>
\* T allocates A: robust pools first check the poison
Alloc == /\ pc = "freed" /\ want' \in Toks \cup {0}
         /\ pc' = (IF Robust THEN "popcheck" ELSE "init") /\ todo' = Cpus
         /\ UNCHANGED <<init, priv, page, copy, ctrue, alarm>>
PopCheck == /\ pc = "popcheck"
            /\ IF todo = {} THEN pc' = "init" /\ UNCHANGED <<todo, alarm>>
               ELSE \E c \in todo : /\ todo' = todo \ {c} /\ alarm' = (alarm \/ View(c, "A") # Poison \/ init["A"] # Poison) /\ UNCHANGED pc
            /\ UNCHANGED <<init, priv, page, copy, want, ctrue>>
InitWrite == /\ pc = "init" /\ init' = [init EXCEPT !["A"] = want] /\ pc' = "cpus" /\ todo' = Cpus
             /\ UNCHANGED <<priv, page, copy, want, ctrue, alarm>>
CpuWrite == /\ pc = "cpus" /\ todo # {}
            /\ \E c \in todo : /\ todo' = todo \ {c}
                               /\ IF View(c, "A") = want THEN UNCHANGED <<priv, page>> ELSE Store(c, "A", want)
            /\ UNCHANGED <<init, copy, pc, want, ctrue, alarm>>
AllocDone == /\ pc = "cpus" /\ todo = {} /\ pc' = "live" /\ ctrue' = [c \in Cpus |-> want]
             /\ UNCHANGED <<init, priv, page, copy, want, todo, alarm>>
AStore == /\ pc = "live" /\ \E c \in Cpus, v \in Toks : Store(c, "A", v) /\ ctrue' = [ctrue EXCEPT ![c] = v]
          /\ UNCHANGED <<init, copy, pc, want, todo, alarm>>
Free == /\ pc = "live" /\ todo' = Cpus
        /\ IF Robust THEN pc' = "pcpus" /\ init' = [init EXCEPT !["A"] = Poison] ELSE pc' = "freed" /\ UNCHANGED init
        /\ UNCHANGED <<priv, page, copy, want, ctrue, alarm>>
PoisonCpu == /\ pc = "pcpus"
             /\ IF todo = {} THEN pc' = "freed" /\ UNCHANGED <<todo, priv, page>>
                ELSE \E c \in todo : /\ todo' = todo \ {c} /\ UNCHANGED pc
                                     /\ IF View(c, "A") = Poison THEN UNCHANGED <<priv, page>> ELSE Store(c, "A", Poison)
             /\ UNCHANGED <<init, copy, want, ctrue, alarm>>
Next == ~alarm /\ (BStore \/ BInstall \/ Alloc \/ PopCheck \/ InitWrite \/ CpuWrite \/ AllocDone \/ AStore \/ Free \/ PoisonCpu)
Spec == Init /\ [][Next]_vars
\* a live item reads as initialised, or as last stored, on every CPU
ContentInv == pc = "live" => \A c \in Cpus : View(c, "A") = ctrue[c]
\* a correct program is never stopped by the poison check
NoFalseAlarm == ~alarm
\* freed items read as poison on every CPU
PoisonInv == Robust /\ pc = "freed" => \A c \in Cpus : View(c, "A") = Poison
=============================================================================
