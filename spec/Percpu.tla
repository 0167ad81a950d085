------------------------------- MODULE Percpu -------------------------------
(* Per-CPU data structures as their users see them: every operation happens at one instant, on one CPU. *)
EXTENDS Integers, Sequences
BufCap == 3
Empty == [ctr |-> 0, lock |-> -1, dat |-> 0, list |-> <<>>, buf |-> <<>>, mbuf |-> <<>>]
Push(q, x) == <<x>> \o q
\* may operation o of thread t, given its result r = [cpu, val], happen in state s (state of CPU r.cpu), and what does it leave?
Can(s, t, o, r) ==
  CASE o.op \in {"inc", "cinc", "pinc"} -> TRUE
    [] o.op = "lock"   -> s.lock = -1
    [] o.op = "unlock" -> s.lock = t
    [] o.op = "crit"   -> s.lock = t /\ r.val = s.dat
    [] o.op = "lpush"  -> TRUE
    [] o.op = "lpop"   -> IF s.list = <<>> THEN r.val = -1 ELSE r.val = s.list[1]
    [] o.op \in {"bpush", "bpushr"} -> IF Len(s.buf) = BufCap THEN r.val = 0 ELSE r.val = 1
    [] o.op = "bpop"   -> IF s.buf = <<>> THEN r.val = -1 ELSE r.val = s.buf[1]
    [] o.op \in {"mpush", "mpushr"} -> IF Len(s.mbuf) = BufCap THEN r.val = 0 ELSE r.val = 1
    [] o.op = "mpop"   -> IF s.mbuf = <<>> THEN r.val = -1 ELSE r.val = s.mbuf[1]
Do(s, t, o, r) ==
  CASE o.op \in {"inc", "cinc", "pinc"} -> [s EXCEPT !.ctr = @ + o.arg]
    [] o.op = "lock"   -> [s EXCEPT !.lock = t]
    [] o.op = "unlock" -> [s EXCEPT !.lock = -1]
    [] o.op = "crit"   -> [s EXCEPT !.dat = @ + 1]
    [] o.op = "lpush"  -> [s EXCEPT !.list = Push(@, o.arg)]
    [] o.op = "lpop"   -> IF s.list = <<>> THEN s ELSE [s EXCEPT !.list = Tail(@)]
    [] o.op \in {"bpush", "bpushr"} -> IF r.val = 0 THEN s ELSE [s EXCEPT !.buf = Push(@, o.arg)]
    [] o.op = "bpop"   -> IF s.buf = <<>> THEN s ELSE [s EXCEPT !.buf = Tail(@)]
    [] o.op \in {"mpush", "mpushr"} -> IF r.val = 0 THEN s ELSE [s EXCEPT !.mbuf = Push(@, o.arg)]
    [] o.op = "mpop"   -> IF s.mbuf = <<>> THEN s ELSE [s EXCEPT !.mbuf = Tail(@)]
=============================================================================
