------------------------------- MODULE NumaMC -------------------------------
(* The batched page-moving loop, for every area length up to MaxPages and every failing request. *)
EXTENDS Numa, TLC
CONSTANTS MaxPages, Batch, Variant
VARIABLES n, flags, node, page, runs, pc, rc, fail
vars == <<n, flags, node, page, runs, pc, rc, fail>>
Init == n \in 0..MaxPages /\ flags \in {0, 2} /\ node \in {-1, 1} /\ page = 0 /\ runs = <<>> /\ pc = "go" /\ rc = 9 /\ fail \in 0..4
Left == n - page
K == IF Variant = "WholeBatches" THEN Batch ELSE IF Left < Batch THEN Left ELSE Batch
More == IF Variant = "DropTail" THEN Left >= Batch ELSE Left > 0
Go == /\ pc = "go" /\ pc' = "loop" /\ rc' = 9
      /\ IF Valid(flags, node) THEN TRUE ELSE FALSE
      /\ UNCHANGED <<n, flags, node, page, runs, fail>>
Refuse == pc = "go" /\ ~Valid(flags, node) /\ pc' = "ret" /\ rc' = -1 /\ UNCHANGED <<n, flags, node, page, runs, fail>>
Req == /\ pc = "loop" /\ More
       /\ runs' = Append(runs, <<page, K>>)
       /\ IF Len(runs) + 1 = fail THEN pc' = "ret" /\ rc' = -1 /\ page' = page
          ELSE pc' = "loop" /\ rc' = rc /\ page' = page + (IF Variant = "Overlap" /\ K > 1 /\ Len(runs) = 1 THEN K - 1 ELSE K)
       /\ UNCHANGED <<n, flags, node, fail>>
Done == pc = "loop" /\ ~More /\ pc' = "ret" /\ rc' = 0 /\ UNCHANGED <<n, flags, node, page, runs, fail>>
Next == Go \/ Refuse \/ Req \/ Done
Spec == Init /\ [][Next]_vars
Ok == /\ AtMostOnce(runs, n)
      /\ pc = "ret" /\ rc = 0 => Valid(flags, node) /\ ExactlyOnce(runs, n)
      /\ pc = "ret" /\ rc = -1 => (~Valid(flags, node) /\ runs = <<>>) \/ Len(runs) = fail
=============================================================================
