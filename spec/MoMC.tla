-------------------------------- MODULE MoMC --------------------------------
(* Every pair (triple) of small threads: the intended translation of the primitives to x86-TSO shows only allowed outcomes.  Broken
   translations (variants) do not.                                                                                     *)
EXTENDS Mo, TLC
CONSTANTS Variant, Deep
V == {"x", "y"}
W(v) == {[o |-> n, v |-> v, k |-> 1] : n \in IF Deep THEN {"W", "WO", "REL"} ELSE {"W", "REL"}}
R(v) == {[o |-> n, v |-> v, k |-> 0] : n \in IF Deep THEN {"R", "ACQ", "CACQ"} ELSE {"R", "ACQ"}}
B == {<<>>} \cup {<<[o |-> n, v |-> "x", k |-> 0]>> : n \in {"MB", "RMB", "WMB"}}
\* two accesses to different variables with an optional barrier between
Progs == {<<a>> \o b \o <<c>> : a \in UNION {W(v) \cup R(v) : v \in V}, b \in B, c \in UNION {W(v) \cup R(v) : v \in V}}
Prog2 == {p \in Progs : p[1].v # p[Len(p)].v /\ (p[1].o = "CACQ" => p[Len(p)].o # "CACQ")}
Diff(p) == [p EXCEPT ![Len(p)].k = @ * 2]
\* load x, then store/load: the third thread of the causality tests
RECURSIVE Trans(_, _)
One(o) == CASE IsW(o) -> <<[o |-> "W", v |-> o.v, k |-> o.k]>>
            [] IsR(o) -> <<[o |-> "R", v |-> o.v]>>
            [] o.o = "MB" -> IF Variant = "NoFence" THEN <<>> ELSE <<[o |-> "F"]>>
            [] OTHER -> <<>>
Trans(p, i) == IF i > Len(p) THEN <<>> ELSE One(p[i]) \o Trans(p, i + 1)
NthR(p, i) == Cardinality({j \in 1..i : IsR(p[j])})
Swap(m) == IF Len(m) = 2 THEN <<m[2], m[1]>> ELSE m
\* Reorder: a compiler that moves a plain access across an acquire or release
Moved(p) == Variant = "Reorder" /\ Len(p) = 2 /\ IsR(p[1]) = IsR(p[2]) /\ ~IsR(p[1]) /\ p[2].o = "REL"
\* the path after a zero: nothing more
Cut(p) == LET S == {i \in 1..Len(p) : p[i].o = "CACQ"} IN IF S = {} THEN p ELSE SubSeq(p, 1, Last(S))
H(p) == [z |-> Trans(Cut(p), 1), zr |-> [i \in 1..Len(p) |-> IF IsR(p[i]) THEN [o |-> "L", n |-> NthR(p, i)] ELSE [o |-> "N", n |-> 0]], m |-> IF Moved(p) THEN Swap(Trans(p, 1)) ELSE Trans(p, 1), r |-> [i \in 1..Len(p) |-> IF IsR(p[i]) THEN [o |-> "L", n |-> NthR(p, i)] ELSE [o |-> "N", n |-> 0]]]
Tests == {<<p, Diff(q)>> : p \in {z \in Prog2 : z[1].v = "x"}, q \in Prog2}
         \* (the variables are interchangeable)
         \cup (IF Deep THEN {<<<<w>>, p, q>> : w \in W("x"), p \in {z \in Prog2 : IsR(z[1]) /\ z[1].v = "x" /\ IsW(z[Len(z)])}, q \in {z \in Prog2 : IsR(z[1]) /\ z[1].v = "y" /\ IsR(z[Len(z)])}} ELSE {})
VARIABLES ps, s
Hs(q) == [t \in 1..Len(q) |-> H(q[t])]
Init == ps \in Tests /\ s = TsoInit(Hs(ps), V)
Next == s' \in TsoSucc(ps, Hs(ps), s) /\ UNCHANGED ps
Spec == Init /\ [][Next]_<<ps, s>>
Sound == TsoSucc(ps, Hs(ps), s) = {} => TsoOutcome(ps, Hs(ps), s) \in Allowed(ps, V)
=============================================================================
