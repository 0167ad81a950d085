-------------------------------- MODULE Numa --------------------------------
(* Moving a CPU's area to its NUMA node: which page-move requests one call may make, and what it answers.
   Pages of the area are numbered 0 .. n-1; a request is a sequence of runs <<first, count>>.              *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumLen(_)
SumLen(rs) == IF rs = <<>> THEN 0 ELSE rs[1][2] + SumLen(Tail(rs))
Inside(rs, n) == \A i \in DOMAIN rs : rs[i][1] >= 0 /\ rs[i][2] >= 1 /\ rs[i][1] + rs[i][2] <= n
Disjoint(rs) == \A i, j \in DOMAIN rs : i < j => rs[i][1] + rs[i][2] <= rs[j][1] \/ rs[j][1] + rs[j][2] <= rs[i][1]
AtMostOnce(rs, n) == Inside(rs, n) /\ Disjoint(rs)
ExactlyOnce(rs, n) == AtMostOnce(rs, n) /\ SumLen(rs) = n
(* Adding one run to a list of disjoint runs, joined to a run it touches (same pages, shorter list). *)
Fresh(rs, r, n) == Inside(<<r>>, n) /\ \A i \in DOMAIN rs : rs[i][1] + rs[i][2] <= r[1] \/ r[1] + r[2] <= rs[i][1]
Join(rs, r) == LET t == {i \in DOMAIN rs : rs[i][1] + rs[i][2] = r[1] \/ r[1] + r[2] = rs[i][1]}
               IN IF t = {} THEN Append(rs, r)
                  ELSE LET i == CHOOSE i \in t : TRUE IN [rs EXCEPT ![i] = <<IF rs[i][1] < r[1] THEN rs[i][1] ELSE r[1], rs[i][2] + r[2]>>]
RECURSIVE AllFresh(_, _, _)
AllFresh(rs, new, n) == IF new = <<>> THEN TRUE ELSE Fresh(rs, new[1], n) /\ AllFresh(Join(rs, new[1]), Tail(new), n)
RECURSIVE JoinAll(_, _)
JoinAll(rs, new) == IF new = <<>> THEN rs ELSE JoinAll(Join(rs, new[1]), Tail(new))
Valid(flags, node) == flags # 0 /\ node >= 0
=============================================================================
