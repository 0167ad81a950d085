------------------------------ MODULE MoArchMC ------------------------------
(* Every pair of small threads on every architecture: the translation of the primitives the library intends there shows only allowed
   outcomes on that architecture's machine.  Weaker translations (variants) do not.                                            *)
EXTENDS Mo
CONSTANTS Variant, Deep, Arches
V == {"x", "y"}
W(v) == {[o |-> n, v |-> v, k |-> 1] : n \in {"W", "REL"}}
R(v) == {[o |-> n, v |-> v, k |-> 0] : n \in {"R", "ACQ", "CACQ"}}
B == {<<>>} \cup {<<[o |-> n, v |-> "x", k |-> 0]>> : n \in {"MB", "RMB", "WMB"}}
Progs == {<<a>> \o b \o <<c>> : a \in UNION {W(v) \cup R(v) : v \in V}, b \in B, c \in UNION {W(v) \cup R(v) : v \in V}}
Prog2 == {p \in Progs : p[1].v # p[Len(p)].v /\ p[Len(p)].o # "CACQ"}
Diff(p) == [p EXCEPT ![Len(p)].k = @ * 2]
F(f) == <<[o |-> "F", f |-> f]>>
Fence(arch, n) ==
  CASE arch = "aarch64" -> F(CASE n = "MB" -> "dmb ish" [] n = "RMB" -> "dmb ishld" [] n = "WMB" -> "dmb ishst")
    [] arch = "arm" -> F("dmb sy")
    [] arch = "riscv64" -> F(CASE n = "MB" -> "fence rw,rw" [] n = "RMB" -> "fence r,r" [] n = "WMB" -> IF Variant = "WmbReads" THEN "fence r,r" ELSE "fence w,w")
    [] arch = "ppc64" -> F(IF n = "MB" /\ Variant # "LightMb" THEN "sync" ELSE "lwsync")
    [] arch = "s390x" -> F("bcr 15")
    [] arch = "mips64el" -> F("sync")
    [] arch = "loongarch64" -> F(CASE n = "MB" -> "dbar 16" [] n = "RMB" -> "dbar 21" [] n = "WMB" -> "dbar 26")
AcqAfter(arch) == CASE arch \in {"aarch64", "s390x"} -> <<>>
                    [] arch = "riscv64" -> F(IF Variant = "AcqReads" THEN "fence r,r" ELSE "fence r,rw")
                    [] arch = "ppc64" -> F("lwsync")
                    [] arch = "loongarch64" -> F("dbar 20")
                    [] OTHER -> Fence(arch, "MB")
RelBefore(arch) == CASE arch \in {"aarch64", "s390x"} -> <<>>
                    [] arch = "riscv64" -> F("fence rw,w")
                    [] arch = "ppc64" -> F("lwsync")
                    [] arch = "loongarch64" -> F(IF Variant = "RelIsAcq" THEN "dbar 20" ELSE "dbar 18")
                    [] OTHER -> Fence(arch, "MB")
CtrlAfter(arch) == IF arch = "ppc64" THEN F("lwsync") ELSE IF Variant = "CtrlOnly" THEN <<>> ELSE Fence(arch, "RMB")
St(o, at) == <<[o |-> "W", v |-> o.v, k |-> o.k, at |-> at]>>
Ld(o, at) == <<[o |-> "R", v |-> o.v, at |-> at]>>
One(arch, o) ==
  CASE o.o \in {"W", "WO"} -> St(o, "")
    [] o.o = "REL" -> RelBefore(arch) \o St(o, IF arch = "aarch64" THEN "rel" ELSE "")
    [] o.o \in {"R", "RO"} -> Ld(o, "")
    [] o.o = "ACQ" -> Ld(o, IF arch = "aarch64" THEN "acq" ELSE "") \o AcqAfter(arch)
    [] o.o = "CACQ" -> Ld(o, "") \o CtrlAfter(arch)
    [] OTHER -> Fence(arch, o.o)
RECURSIVE Trans(_, _, _)
Trans(arch, p, i) == IF i > Len(p) THEN <<>> ELSE One(arch, p[i]) \o Trans(arch, p, i + 1)
NthR(p, i) == Cardinality({j \in 1..i : IsR(p[j])})
Cut(p) == LET S == {i \in 1..Len(p) : p[i].o = "CACQ"} IN IF S = {} THEN p ELSE SubSeq(p, 1, Last(S))
H(arch, p) == LET r == [i \in 1..Len(p) |-> IF IsR(p[i]) THEN [o |-> "L", n |-> NthR(p, i)] ELSE [o |-> "N", n |-> 0]]
              IN [m |-> Trans(arch, p, 1), r |-> r, z |-> Trans(arch, Cut(p), 1), zr |-> r]
Three == {<<<<w>>, p, q>> : w \in W("x"), p \in {z \in Prog2 : IsR(z[1]) /\ z[1].v = "x" /\ IsW(z[Len(z)])},
                            q \in {z \in Prog2 : IsR(z[1]) /\ z[1].v = "y" /\ IsR(z[Len(z)])}}
Tests == {<<p, Diff(q)>> : p \in {z \in Prog2 : z[1].v = "x"}, q \in Prog2} \cup (IF Deep THEN Three ELSE {})
VARIABLES arch, ps, P, s
vars == <<arch, ps, P, s>>
Hs(a, q) == [t \in 1..Len(q) |-> H(a, q[t])]
Init == /\ arch \in Arches /\ ps \in Tests
        /\ P \in HwCombos(arch, ps, Hs(arch, ps), Len(ps))
        /\ s = HwInit(P, V)
Next == s' \in HwSucc(P, s) /\ UNCHANGED <<arch, ps, P>>
Spec == Init /\ [][Next]_vars
Sound == HwDone(P, s) => HwOutcome(ps, P, s) \in Allowed(ps, V)
=============================================================================
