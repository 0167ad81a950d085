------------------------------- MODULE Words -------------------------------
\* 64-bit machine words as four 16-bit limbs, least significant first (TLC integers are 32-bit).
EXTENDS Integers, Sequences
W0 == <<0,0,0,0>>
WInt(n) == <<n % 65536, n \div 65536, 0, 0>>                    \* 0 <= n < 2^31
WLt(a, b) == \/ a[4] < b[4]
             \/ a[4] = b[4] /\ a[3] < b[3]
             \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] < b[2]
             \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]
WLeq(a, b) == a = b \/ WLt(a, b)
WAdd(a, b) == LET c1 == a[1] + b[1]
                  c2 == a[2] + b[2] + c1 \div 65536
                  c3 == a[3] + b[3] + c2 \div 65536
                  c4 == a[4] + b[4] + c3 \div 65536
              IN <<c1 % 65536, c2 % 65536, c3 % 65536, c4 % 65536>>   \* modulo 2^64, i.e. two's complement
\* index of the highest set bit, -1 for zero
LimbTop(x) == IF x = 0 THEN -1 ELSE CHOOSE i \in 0..15 : 2^i <= x /\ x < 2^(i+1)
WTop(w) == IF w[4] # 0 THEN 48 + LimbTop(w[4]) ELSE IF w[3] # 0 THEN 32 + LimbTop(w[3])
           ELSE IF w[2] # 0 THEN 16 + LimbTop(w[2]) ELSE LimbTop(w[1])
LimbPow2(x) == \E i \in 0..15 : x = 2^i
WPow2(w) == \E i \in 1..4 : LimbPow2(w[i]) /\ \A j \in (1..4) \ {i} : w[j] = 0
\* least n with w <= 2^n (64 if none below), 0 for 0 and 1
WCeilLog2(w) == IF w = W0 THEN 0 ELSE IF WPow2(w) THEN WTop(w) ELSE WTop(w) + 1
WPow(n) == LET i == n \div 16 IN [j \in 1..4 |-> IF j = i + 1 THEN 2^(n % 16) ELSE 0]
RECURSIVE WShl(_, _)
WShl(w, n) == IF n = 0 THEN w ELSE WShl(WAdd(w, w), n - 1)
=============================================================================
