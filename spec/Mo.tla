--------------------------------- MODULE Mo ---------------------------------
(* What the ordering primitives promise, as a machine: each thread performs its source-level accesses on one shared memory in any
   order that the primitives it used do not forbid.

   A thread is a sequence of operations [o, v, k]:
     W, WO, REL   plain, once and release store of k to variable v        R, RO, ACQ   plain, once and acquire load of v
     CACQ         once load of v; a zero ends the thread, otherwise an acquire after the control dependency follows
     MB, RMB, WMB full, read and write barrier                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IsW(o) == o.o \in {"W", "WO", "REL"}
IsR(o) == o.o \in {"R", "RO", "ACQ", "CACQ"}
Acc(o) == IsW(o) \/ IsR(o)
Volatile(o) == o.o \notin {"W", "R"}
Between(p, i, j, f) == \E m \in (i + 1)..(j - 1) : p[m].o = f
\* must access i of program p be performed before access j (i < j)?
Req(p, i, j) ==
  \/ p[j].o = "REL"
  \/ p[i].o \in {"ACQ", "CACQ"}
  \/ Between(p, i, j, "MB")
  \/ Between(p, i, j, "RMB") /\ IsR(p[i]) /\ IsR(p[j])
  \/ Between(p, i, j, "WMB") /\ IsW(p[i]) /\ IsW(p[j])
  \/ p[i].v = p[j].v /\ IsW(p[j])
  \/ p[i].v = p[j].v /\ IsR(p[i]) /\ IsR(p[j]) /\ Volatile(p[i]) /\ Volatile(p[j])
Accs(p) == {i \in 1..Len(p) : Acc(p[i])}
NoVal == -1
MoInit(ps, V) == [mem |-> [v \in V |-> 0], done |-> [t \in 1..Len(ps) |-> {}], reg |-> [t \in 1..Len(ps) |-> [i \in 1..Len(ps[t]) |-> NoVal]]]
\* accesses of thread t that will be performed, as far as is known: not those after a control-dependent load that read zero
Live(ps, s, t) == {i \in Accs(ps[t]) : \A j \in 1..(i - 1) : ~(ps[t][j].o = "CACQ" /\ s.reg[t][j] = 0)}
MoCan(ps, s, t, j) == /\ j \in Live(ps, s, t) \ s.done[t]
                      /\ \A i \in Accs(ps[t]) : i < j /\ Req(ps[t], i, j) => i \in s.done[t]
OwnPending(p, d, j) == {i \in Accs(p) : i < j /\ IsW(p[i]) /\ p[i].v = p[j].v /\ i \notin d}
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
MoDo(ps, s, t, j) ==
  LET o == ps[t][j]  d == [s.done EXCEPT ![t] = @ \cup {j}]  q == OwnPending(ps[t], s.done[t], j) IN
  IF IsW(o) THEN [s EXCEPT !.done = d, !.mem[o.v] = o.k]
  ELSE [s EXCEPT !.done = d, !.reg[t][j] = (IF q = {} THEN s.mem[o.v] ELSE ps[t][Last(q)].k)]
MoSucc(ps, s) == {MoDo(ps, s, x[1], x[2]) : x \in {y \in {<<t, j>> : t \in 1..Len(ps), j \in 1..9} : y[2] <= Len(ps[y[1]]) /\ MoCan(ps, s, y[1], y[2])}}
MoOutcome(s) == [reg |-> s.reg, mem |-> s.mem]
RECURSIVE MoReach(_, _, _)
MoReach(ps, seen, fr) == IF fr = {} THEN seen
                         ELSE LET n == (UNION {MoSucc(ps, s) : s \in fr}) \ seen IN MoReach(ps, seen \cup n, n)
Allowed(ps, V) == LET i == {MoInit(ps, V)}  r == MoReach(ps, i, i) IN {MoOutcome(s) : s \in {x \in r : MoSucc(ps, x) = {}}}

(* The machine that executes the instructions the compiler produced: x86-TSO.  A thread is [m, r]: m the memory accesses and fences
   its instructions make, in order: [o |-> "W", v, k], [o |-> "R", v], [o |-> "F"]; r says, for every source operation that is a
   load, where its value comes from: [o |-> "L", n] the n-th R of m, [o |-> "C", n] the constant n, [o |-> "N"] no value.
   A thread with a control dependency also has z and zr: the same for the path taken when that load reads zero.            *)
TsoInit(hs, V) == [mem |-> [v \in V |-> 0], th |-> [t \in 1..Len(hs) |-> [pc |-> 1, buf |-> <<>>, ld |-> <<>>, stop |-> 0]]]
Fwd(b, v) == {i \in 1..Len(b) : b[i].v = v}
\* does the n-th load of thread t decide a control dependency?  (the index of the source operation, or 0)
Ctrl(p, h, n) == LET S == {i \in 1..Len(p) : p[i].o = "CACQ" /\ h.r[i].o = "L" /\ (IF h.r[i].o = "L" THEN h.r[i].n = n ELSE FALSE)} IN IF S = {} THEN 0 ELSE Last(S)
TsoStep(ps, hs, s, t) ==
  LET x == s.th[t]  h == hs[t]  m == IF x.stop = 0 THEN h.m ELSE h.z IN
  (IF x.buf # <<>> THEN {[s EXCEPT !.mem[x.buf[1].v] = x.buf[1].k, !.th[t].buf = Tail(@)]} ELSE {})
  \cup
  (IF x.pc > Len(m) THEN {}
   ELSE LET i == m[x.pc] IN
     CASE i.o = "W" -> {[s EXCEPT !.th[t].buf = Append(@, [v |-> i.v, k |-> i.k]), !.th[t].pc = @ + 1]}
       [] i.o = "F" -> IF x.buf = <<>> THEN {[s EXCEPT !.th[t].pc = @ + 1]} ELSE {}
       [] i.o = "R" -> LET f == Fwd(x.buf, i.v)
                           k == IF f = {} THEN s.mem[i.v] ELSE x.buf[Last(f)].k
                           c == IF x.stop = 0 THEN Ctrl(ps[t], h, Len(x.ld) + 1) ELSE 0
                       IN  {[s EXCEPT !.th[t] = [@ EXCEPT !.ld = Append(@, k), !.pc = @ + 1, !.stop = (IF c # 0 /\ k = 0 THEN c ELSE @)]]})
\* accesses through primitives take place, each one by itself and in one piece; checked on the path where no control load reads zero
VR(p) == {i \in 1..Len(p) : IsR(p[i]) /\ Volatile(p[i])}
Count(S, P(_)) == Cardinality({i \in S : P(i)})
Once(p, h) ==
  /\ \A i \in VR(p) : h.r[i].o = "L"
  /\ \A i, j \in VR(p) : i # j => h.r[i].n # h.r[j].n
  /\ \A i \in 1..Len(p) : IsW(p[i]) /\ Volatile(p[i]) =>
       LET same(j) == IsW(p[j]) /\ Volatile(p[j]) /\ p[j].v = p[i].v /\ p[j].k = p[i].k
           made(j) == IF h.m[j].o = "W" THEN h.m[j].v = p[i].v /\ h.m[j].k = p[i].k ELSE FALSE
       IN  Count(1..Len(p), same) <= Count(1..Len(h.m), made)
TsoSucc(ps, hs, s) == UNION {TsoStep(ps, hs, s, t) : t \in 1..Len(hs)}
Reg(p, h, x, i) == IF ~IsR(p[i]) \/ (x.stop # 0 /\ i > x.stop) THEN NoVal
                   ELSE LET r == (IF x.stop = 0 THEN h.r ELSE h.zr)[i] IN
                        CASE i = x.stop -> 0
                          [] r.o = "L" -> IF r.n <= Len(x.ld) THEN x.ld[r.n] ELSE NoVal
                          [] r.o = "C" -> r.n
                          [] OTHER -> -9
TsoOutcome(ps, hs, s) == [reg |-> [t \in 1..Len(ps) |-> [i \in 1..Len(ps[t]) |-> Reg(ps[t], hs[t], s.th[t], i)]], mem |-> s.mem]
RECURSIVE TsoReach(_, _, _, _)
TsoReach(ps, hs, seen, fr) == IF fr = {} THEN seen
                              ELSE LET n == (UNION {TsoSucc(ps, hs, s) : s \in fr}) \ seen IN TsoReach(ps, hs, seen \cup n, n)
Possible(ps, hs, V) == LET i == {TsoInit(hs, V)}  r == TsoReach(ps, hs, i, i) IN {TsoOutcome(ps, hs, s) : s \in {x \in r : TsoSucc(ps, hs, x) = {}}}

(* The machines of the other architectures: accesses of a thread are performed on one shared memory (multi-copy atomic) in any order
   its instructions do not forbid.  Accesses carry at |-> "acq" / "rel" for one-way instructions, fences f |-> the instruction.  *)
AllK == {"R", "W"} \X {"R", "W"}
RvK == {<<"r", {"R"}>>, <<"w", {"W"}>>, <<"rw", {"R", "W"}>>, <<"iorw", {"R", "W"}>>}
Bit(n, b) == (n \div 2^b) % 2
Covers(arch, f) ==
  CASE arch \in {"aarch64", "arm"} ->
         (CASE f \in {"dmb ish", "dmb sy", "dsb ish", "dsb sy"} -> AllK
            [] f \in {"dmb ishld", "dmb ld", "dsb ishld", "dsb ld"} -> {"R"} \X {"R", "W"}
            [] f \in {"dmb ishst", "dmb st", "dsb ishst", "dsb st"} -> {<<"W", "W">>}
            [] OTHER -> {})
    [] arch = "riscv64" -> IF f = "fence.tso" THEN AllK \ {<<"W", "R">>}
                           ELSE UNION {x[1][2] \X x[2][2] : x \in {y \in RvK \X RvK : f = "fence " \o y[1][1] \o "," \o y[2][1]}}
    [] arch \in {"ppc64", "ppc64le", "ppc32"} ->
         (CASE f \in {"sync", "hwsync", "ptesync"} -> AllK [] f = "lwsync" -> AllK \ {<<"W", "R">>} [] f = "eieio" -> {<<"W", "W">>} [] OTHER -> {})
    [] arch = "s390x" -> IF f \in {"bcr 14", "bcr 15"} THEN AllK ELSE {}
    [] arch \in {"mips32", "mips64el"} ->
         (CASE f \in {"sync", "sync 0", "sync 16"} -> AllK [] f = "sync 4" -> {<<"W", "W">>} [] f = "sync 17" -> {"R"} \X {"R", "W"}
            [] f = "sync 18" -> {"R", "W"} \X {"W"} [] f = "sync 19" -> {<<"R", "R">>} [] OTHER -> {})
    [] arch = "loongarch64" ->
         UNION {((IF Bit(n, 3) = 0 THEN {"R"} ELSE {}) \cup (IF Bit(n, 2) = 0 THEN {"W"} ELSE {})) \X ((IF Bit(n, 1) = 0 THEN {"R"} ELSE {}) \cup (IF Bit(n, 0) = 0 THEN {"W"} ELSE {}))
                : n \in {k \in 0..31 : f = "dbar " \o ToString(k)}}
    [] OTHER -> {}
\* accesses of the machine program m, and the order its instructions impose: computed once per thread
MAcc(m) == {i \in 1..Len(m) : m[i].o # "F"}
Tso(arch) == arch = "s390x"
HwOrd(arch, m, i, j, deciding) ==
  \/ m[i].v = m[j].v /\ ~(m[i].o = "W" /\ m[j].o = "R")
  \/ \E k \in (i + 1)..(j - 1) : m[k].o = "F" /\ (IF m[k].o = "F" THEN <<m[i].o, m[j].o>> \in Covers(arch, m[k].f) ELSE FALSE)
  \/ m[i].at = "acq" \/ m[j].at = "rel" \/ (m[i].at = "rel" /\ m[j].at = "acq")
  \/ Tso(arch) /\ ~(m[i].o = "W" /\ m[j].o = "R")
  \/ i = deciding /\ m[j].o = "W"
\* index in m of its n-th load
NthLoad(m, n) == LET S == {i \in MAcc(m) : m[i].o = "R" /\ Cardinality({j \in MAcc(m) : j <= i /\ m[j].o = "R"}) = n} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* the load of the control dependency of source program p (there is at most one), as an index in m
Deciding(p, h, m) == LET S == {i \in 1..Len(p) : p[i].o = "CACQ"} IN
                     IF S = {} THEN 0 ELSE LET r == h.r[CHOOSE i \in S : TRUE] IN IF r.o = "L" THEN NthLoad(m, r.n) ELSE 0
\* a path of thread t: the branch is guessed; a wrong guess comes to nothing, because stores wait for the load that decides
HwPath(arch, p, h, zero) ==
  LET m == IF zero THEN h.z ELSE h.m  d == Deciding(p, h, m)
  IN [m |-> m, r |-> (IF zero THEN h.zr ELSE h.r), zero |-> zero, d |-> d,
      pre |-> [j \in 1..Len(m) |-> IF m[j].o = "F" THEN {} ELSE {i \in MAcc(m) : i < j /\ HwOrd(arch, m, i, j, d)}]]
HwPaths(arch, ps, hs, t) == {HwPath(arch, ps[t], hs[t], FALSE)} \cup (IF Deciding(ps[t], hs[t], hs[t].m) # 0 THEN {HwPath(arch, ps[t], hs[t], TRUE)} ELSE {})
HwInit(P, V) == [mem |-> [v \in V |-> 0], done |-> [t \in 1..Len(P) |-> {}], ld |-> [t \in 1..Len(P) |-> [i \in 1..Len(P[t].m) |-> NoVal]]]
HwOwn(m, d, j) == {i \in MAcc(m) : i < j /\ m[i].o = "W" /\ m[i].v = m[j].v /\ i \notin d}
HwSucc(P, s) ==
  UNION {LET m == P[t].m IN
         UNION {IF m[j].o = "W" THEN {[s EXCEPT !.done[t] = @ \cup {j}, !.mem[m[j].v] = m[j].k]}
                ELSE LET q == HwOwn(m, s.done[t], j)  k == IF q = {} THEN s.mem[m[j].v] ELSE m[Last(q)].k IN
                     IF j = P[t].d /\ (k = 0) # P[t].zero THEN {}
                     ELSE {[s EXCEPT !.done[t] = @ \cup {j}, !.ld[t][j] = k]}
                : j \in {x \in MAcc(m) \ s.done[t] : P[t].pre[x] \subseteq s.done[t]}}
         : t \in 1..Len(P)}
HwDone(P, s) == \A t \in 1..Len(P) : s.done[t] = MAcc(P[t].m)
HwReg(p, x, s, t, i) ==
  LET c == {j \in 1..Len(p) : p[j].o = "CACQ"}  stop == IF x.zero THEN CHOOSE j \in c : TRUE ELSE 0 IN
  IF ~IsR(p[i]) \/ (x.zero /\ i > stop) THEN NoVal
  ELSE LET r == x.r[i] IN
       CASE x.zero /\ i = stop -> 0
         [] r.o = "L" -> (LET n == NthLoad(x.m, r.n) IN IF n = 0 THEN -9 ELSE s.ld[t][n])
         [] r.o = "C" -> r.n
         [] OTHER -> -9
HwOutcome(ps, P, s) == [reg |-> [t \in 1..Len(ps) |-> [i \in 1..Len(ps[t]) |-> HwReg(ps[t], P[t], s, t, i)]], mem |-> s.mem]
RECURSIVE HwReach(_, _, _)
HwReach(P, seen, fr) == IF fr = {} THEN seen ELSE LET n == (UNION {HwSucc(P, s) : s \in fr}) \ seen IN HwReach(P, seen \cup n, n)
RECURSIVE HwCombos(_, _, _, _)
HwCombos(arch, ps, hs, t) == IF t = 0 THEN {<<>>} ELSE {Append(c, x) : c \in HwCombos(arch, ps, hs, t - 1), x \in HwPaths(arch, ps, hs, t)}
HwPossible(arch, ps, hs, V) ==
  UNION {LET i == {HwInit(P, V)} IN {HwOutcome(ps, P, s) : s \in {x \in HwReach(P, i, i) : HwDone(P, x)}} : P \in HwCombos(arch, ps, hs, Len(ps))}
=============================================================================
