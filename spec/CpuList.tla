------------------------------ MODULE CpuList ------------------------------
(* The kernel's list of possible CPUs and what the library must detect from it.
   A set of CPUs is given by its ranges <<lo, hi>>, increasing and separated; texts are sequences of character codes. *)
EXTENDS Integers, Sequences, FiniteSets
Dash == 45  Comma == 44  NL == 10
IsDigit(ch) == ch >= 48 /\ ch <= 57
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
RangeText(r) == IF r[1] = r[2] THEN Digits(r[1]) ELSE Digits(r[1]) \o <<Dash>> \o Digits(r[2])
RECURSIVE ListText(_)
ListText(rs) == IF rs = <<>> THEN <<>> ELSE IF Len(rs) = 1 THEN RangeText(rs[1]) ELSE RangeText(rs[1]) \o <<Comma>> \o ListText(Tail(rs))
Proper(rs) == /\ \A i \in DOMAIN rs : 0 <= rs[i][1] /\ rs[i][1] <= rs[i][2]
              /\ \A i \in 1..Len(rs) - 1 : rs[i][2] + 1 < rs[i+1][1]
RECURSIVE RangesOf(_, _)
RangesOf(s, lo) == \* ranges of a set of CPU ids, from lo up
  IF {x \in s : x >= lo} = {} THEN <<>>
  ELSE LET a == CHOOSE x \in s : x >= lo /\ \A y \in s : y >= lo => x <= y
           b == CHOOSE x \in s : x >= a /\ (a..x) \subseteq s /\ (x + 1) \notin s
       IN <<<<a, b>>>> \o RangesOf(s, b + 1)
Highest(rs) == rs[Len(rs)][2]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* configured: sysconf's answer (-1: failed); dirs: ids of the CPU directories; opened: whether the directory could be read
Fallback(conf, dirs) == MaxOf({conf, 0} \cup {d + 1 : d \in dirs})
\* listed: ranges shown by the kernel, <<>> if none could be obtained
Detect(rs, conf, dirs) == IF rs # <<>> THEN Highest(rs) + 1 ELSE Fallback(conf, dirs)
=============================================================================
