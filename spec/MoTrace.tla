------------------------------ MODULE MoTrace ------------------------------
(* Judges recordings of the real code:
     test  source programs ps with the accesses hs their compiled code makes: every outcome of x86-TSO must be allowed
     xtest the same on another architecture's machine, for the code compiled for it
     hw    source programs ps with one outcome seen on the hardware: it must be allowed
     val   a value of a type moved through a primitive: it must arrive unchanged (and widen according to its type)
     prim  a primitive used alone in a function, compiled and assembled for an architecture                             *)
EXTENDS Mo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
V == {"x", "y", "z", "u", "v"}
VARIABLES l
Init == l = 1 /\ TLCSet(1, 1)
Chk(n, c) == IF c THEN TRUE ELSE PrintT(<<"REASON", n>>) /\ FALSE
Used(ps) == UNION {{ps[t][i].v : i \in Accs(ps[t])} : t \in 1..Len(ps)}
Touched(hs) == UNION {{hs[t].m[i].v : i \in {j \in 1..Len(hs[t].m) : hs[t].m[j].o # "F"}} : t \in 1..Len(hs)}
Test(e) == LET U == Used(e.ps)  bad == Possible(e.ps, e.hs, U) \ Allowed(e.ps, U) IN
           Chk("an access through a primitive was merged, dropped or split", \A t \in 1..Len(e.ps) : Once(e.ps[t], e.hs[t])) /\
           Chk(<<"outcome possible on x86-TSO but not allowed", IF bad = {} THEN 0 ELSE CHOOSE b \in bad : TRUE>>, bad = {})
XTest(e) == LET U == Used(e.ps)  bad == HwPossible(e.arch, e.ps, e.hs, U) \ Allowed(e.ps, U) IN
           Chk("an access through a primitive was merged, dropped or split", \A t \in 1..Len(e.ps) : Once(e.ps[t], e.hs[t])) /\
           Chk(<<"outcome possible on", e.arch, "but not allowed", IF bad = {} THEN 0 ELSE CHOOSE b \in bad : TRUE>>, bad = {})
Hw(e) == LET U == Used(e.ps) IN
         Chk("outcome seen on the hardware is not allowed", [reg |-> e.reg, mem |-> [v \in U |-> e.mem[v]]] \in Allowed(e.ps, U))
\* values as sequences of bytes, least significant first, widened to 8 bytes
Ext(e) == [i \in 1..8 |-> IF i <= e.size THEN e.in[i] ELSE IF e.signed /\ e.in[e.size] >= 128 THEN 255 ELSE 0]
Val(e) == Chk(<<"value changed", e.op, e.type, e.in, e.out>>, e.out = Ext(e)) /\ Chk("bytes around it changed", e.around)
Ev(e) == CASE e.e = "start" -> TRUE
           [] e.e = "test" -> Test(e)
           [] e.e = "xtest" -> XTest(e)
           [] e.e = "hw" -> Hw(e)
           [] e.e = "val" -> Val(e)
           [] e.e = "prim" -> Chk(<<e.name, "cannot be used on", e.arch>>, e.ok)
           [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Ev(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
RegL == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
