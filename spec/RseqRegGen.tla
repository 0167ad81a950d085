----------------------------- MODULE RseqRegGen -----------------------------
(* Behaviours of RseqReg for TLC -simulate: each finished behaviour is printed as a configuration and a script. *)
EXTENDS RseqReg, TLC, Json, Randomization
CONSTANTS Len_, Mode
VARIABLES c, al, fail, size, klen, n, hist, dead
vars == <<c, al, fail, size, klen, n, hist, dead>>
T == 0..3
R(S) == RandomElement(S)
S(x) == ToString(x)
Auxs == {0, 20, 24, 28, 32, 33, 36, 40, 64, 128, 1024}
Init == /\ \E a \in {R(Auxs)} : \E m \in {R(IF Mode = "libc" THEN {7} ELSE {0, 1, 2, 3, 4, 5, 6, 7})} :
           \E ls \in {R(IF Mode = "libc" THEN {20, 32} \cup {x \in {24, 28, 33, 36, 40, 64} : x <= (IF a = 0 THEN 20 ELSE a)}
                        ELSE IF m = 7 THEN {0} ELSE {0, 20, 32})} :
           \E k \in {R({0, 1, 1, 1, 1, 1})} : c = [mask |-> m, lsize |-> ls, aux |-> a, kern |-> IF R(1..8) = 1 THEN 0 ELSE 1]
        /\ \E a \in {R({0, 32, 64, 256, 1024})} : al = a
        /\ \E f \in {R({0, 0, 1, 2, 3, 5, 8})} : \E e \in {R({1, 12, 14, 16, 22})} : fail = <<f, e>>
        /\ size = InitSize(c) /\ klen = [t \in T |-> 0] /\ n = 0 /\ hist = <<>> /\ dead = FALSE
Ret(x) == IF fail[1] = n + 1 /\ c.kern = 1 THEN 0 - fail[2] ELSE x
Say(x) == hist' = Append(hist, x)
Same == UNCHANGED <<c, al, fail>>
RegA == \E t \in {R(T)} : \E again \in {R(1..6) = 1} :
        /\ klen[t] = 0 \/ again
        /\ LET r == Ret(KernelReg(c, klen[t], AreaLen(c))) IN
           /\ Say("r" \o S(t)) /\ n' = n + Calls(c) /\ size' = RegSize(c, size, r)
           /\ klen' = [klen EXCEPT ![t] = IF r = 0 /\ ~LibcOwns(c) THEN AreaLen(c) ELSE @]
           /\ dead' = (RegOutcome(c, size, r) = "die")
UnregA == \E t \in {R(T)} : LET r == Ret(KernelUnreg(c, klen[t], AreaLen(c))) IN
           /\ Say("u" \o S(t)) /\ n' = n + Calls(c)
           /\ klen' = [klen EXCEPT ![t] = IF r = 0 /\ ~LibcOwns(c) THEN 0 ELSE @] /\ UNCHANGED <<size, dead>>
AvailA == \E q \in {R({0, 0, 1, 1, 2, 3, 1000})} : Say("a" \o S(q)) /\ n' = n + (IF q = 0 THEN 1 ELSE 0) /\ UNCHANGED <<size, klen, dead>>
QueryA == \E t \in {R(T)} : Say("q" \o S(t)) /\ UNCHANGED <<n, size, klen, dead>>
KernA == \E t \in {R(T)} : \E v \in {R({0, 1, 7, 255, 256, 65536, 2147483644})} : Say("k" \o S(t) \o "=" \o S(v)) /\ UNCHANGED <<n, size, klen, dead>>
ExitA == \E t \in {R(T)} : klen[t] = 0 /\ Say("x" \o S(t)) /\ UNCHANGED <<n, size, klen, dead>>
ConcA == /\ fail[1] = 0 /\ \A t \in T : klen[t] = 0
         /\ Say("R0,1,2,3") /\ n' = n + 4 * Calls(c) /\ size' = RegSize(c, size, KernelReg(c, 0, AreaLen(c)))
         /\ klen' = [t \in T |-> IF LibcOwns(c) \/ c.kern = 0 THEN 0 ELSE AreaLen(c)] /\ UNCHANGED dead
Step == /\ Len(hist) < Len_ /\ ~dead /\ Same
        /\ (RegA \/ RegA \/ UnregA \/ QueryA \/ QueryA \/ AvailA \/ KernA \/ ExitA \/ ConcA)
Finish == /\ (Len(hist) >= Len_ \/ dead) /\ Len(hist) <= Len_
          /\ PrintT("SCRIPT " \o ToJson([c |-> c, al |-> al, fail |-> fail, ops |-> hist, dies |-> dead]))
          /\ hist' = hist \o [i \in 1..Len_ + 1 |-> "."] /\ UNCHANGED <<c, al, fail, n, size, klen, dead>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
