----------------------------- MODULE CpuListMC -----------------------------
(* The detection algorithm (read loop, backward scan, fallback), step by step, for every set of CPU ids up to MaxId and every way
   the reads may be split, interrupted or fail.  Variant: faulty algorithms.                                     *)
EXTENDS CpuList, TLC
CONSTANTS Ids, MaxChunk, MaxIntr, Variant
VARIABLES s, nl, conf, dirs, text, pos, buf, intr, pc, res, cache, calls
vars == <<s, nl, conf, dirs, text, pos, buf, intr, pc, res, cache, calls>>
Start == pos = 0 /\ buf = <<>> /\ intr = 0 /\ pc = "call" /\ res = -1
Init == /\ s \in SUBSET Ids /\ nl \in {0, 1} /\ conf \in {-1, 2} /\ dirs \in {{}, {3}}
        /\ text = ListText(RangesOf(s, 0)) \o (IF nl = 1 THEN <<NL>> ELSE <<>>)
        /\ Start /\ cache = 0 /\ calls = 0
Same == UNCHANGED <<s, nl, conf, dirs, text>>
Call == pc = "call" /\ calls < 2 /\ calls' = calls + 1 /\ buf' = <<>> /\ pos' = 0
        /\ (IF cache # 0 THEN pc' = "ret" /\ res' = cache ELSE pc' = "read" /\ res' = -1) /\ UNCHANGED <<intr, cache>> /\ Same
\* read(2): some bytes, end of file, interrupted, or failing (the last may happen in the first call only)
Read == pc = "read" /\ Same /\ UNCHANGED <<cache, calls, res>> /\
   \/ pos = Len(text) /\ pc' = "parse" /\ UNCHANGED <<pos, buf, intr>>
   \/ \E k \in 1..MaxChunk : pos + k <= Len(text) /\ pos' = pos + k /\ buf' = buf \o SubSeq(text, pos + 1, pos + k)
         /\ pc' = (IF Variant = "OneRead" THEN "parse" ELSE "read") /\ UNCHANGED intr
   \/ intr < MaxIntr /\ intr' = intr + 1 /\ UNCHANGED <<pos, buf>> /\ pc' = (IF Variant = "IntrIsEof" THEN "parse" ELSE "read")
   \/ calls = 1 /\ pc' = "fall" /\ UNCHANGED <<pos, buf, intr>>
RECURSIVE Num(_)
Num(q) == IF q = <<>> THEN 0 ELSE Num(SubSeq(q, 1, Len(q) - 1)) * 10 + (q[Len(q)] - 48)
\* backward scan: digits after the last separator
Sep(ch) == IF Variant = "CommaOnly" THEN ch = Comma ELSE ch = Comma \/ ch = Dash
LastNum(b) == LET seps == {i \in DOMAIN b : Sep(b[i])}
                  from == IF seps = {} THEN 1 ELSE MaxOf(seps) + 1
                  ds == {i \in from..Len(b) : \A j \in from..i : IsDigit(b[j])}
              IN IF ds = {} THEN -1 ELSE Num(SubSeq(b, from, MaxOf(ds)))
Parse == pc = "parse" /\ Same /\ UNCHANGED <<pos, buf, intr, calls, cache>>
         /\ IF LastNum(buf) >= 0 THEN pc' = "store" /\ res' = LastNum(buf) + 1 ELSE pc' = "fall" /\ res' = res
Fall == pc = "fall" /\ res' = MaxOf({conf, MaxOf({-1} \cup dirs) + 1}) /\ pc' = "store" /\ Same /\ UNCHANGED <<pos, buf, intr, calls, cache>>
Store == pc = "store" /\ (cache' = IF res < 1 THEN (IF Variant = "CacheError" THEN 1 ELSE 0) ELSE res) /\ res' = cache' /\ pc' = "ret" /\ Same /\ UNCHANGED <<pos, buf, intr, calls>>
Ret == pc = "ret" /\ pc' = "call" /\ UNCHANGED <<res, pos, buf, intr, calls, cache>> /\ Same
Next == Call \/ Read \/ Parse \/ Fall \/ Store \/ Ret
Spec == Init /\ [][Next]_vars
Failed == pc = "ret"
\* the whole text was read unless the first call's read failed; then the fallback answers
Ok == pc = "ret" => res \in ({Detect(RangesOf(s, 0), conf, dirs)} \cup {Fallback(conf, dirs)})
OkRead == pc = "ret" /\ pos = Len(text) /\ Len(text) > 0 /\ calls = 1 /\ s # {} => res \in {Highest(RangesOf(s, 0)) + 1, Fallback(conf, dirs)}
OkSecond == pc = "ret" /\ calls = 2 /\ conf = -1 /\ dirs = {} => res = Detect(RangesOf(s, 0), conf, dirs)
=============================================================================
