---------------------------- MODULE MempoolGen ----------------------------
(* Generates operation scripts for the pool driver: each behaviour of the abstract pools (Mempool) is printed as the list of
   driver commands that exercises it.  Run with TLC -simulate; every random choice is TLC's, so a seed fixes the scripts.
   Profile selects the emphasis: "mix", "content", "fill", "robust", "fork", "set".
   Random choices are bound with \E x \in {RandomElement(..)} (TLC evaluates LET definitions lazily, and more than once). *)
EXTENDS Mempool, Json
CONSTANTS Profile, Len_, NPools
VARIABLES w, c, hist, nh, done, forked
vars == <<w, c, hist, nh, done, forked>>

S(x) == ToString(x)
R(X) == RandomElement(X)
OneIn(n) == R(1..n) = 1

Rnd(k) == <<R(0..k), R(0..k), R(0..k), R(0..k), R(0..k), R(0..k), R(0..k), R(0..k), R(0..k), R(0..k), R(0..k), R(0..k)>>
Pick(s, n) == s[(n % Len(s)) + 1]
Poisons == <<"0", "1", "ffffffffffffffff", "5555555555555555", "deadbeef00c0ffee", "8000000000000000">>

MkCfg(p, r) ==
  LET set   == Profile = "set"
      glob  == IF Profile = "fork" THEN FALSE ELSE r[1] % 6 = 0
      pol   == IF Profile = "fork" THEN Pick(<<0, 0, 1>>, r[2]) ELSE r[2] % 2
      init  == pol = 0 /\ ~glob
      rob   == IF Profile = "robust" THEN TRUE ELSE IF Profile = "content" THEN r[3] % 3 = 0 ELSE r[3] % 2 = 0
      pset  == r[4] % 2 = 0
      so    == IF set THEN 12 + 2 * p ELSE Pick(<<12, 12, 13, 14>>, r[5])
      ord   == IF set THEN so - Pick(<<0, 0, 1, 1, 2>>, r[6])
               ELSE IF Profile = "fill" THEN so - Pick(<<0, 1, 2>>, r[6])
               ELSE IF r[7] % 4 = 0 THEN 3 + (r[6] % (so - 2)) ELSE so - Pick(<<0, 1, 2>>, r[6])
      nc    == IF glob THEN 1 ELSE IF set THEN IF init /\ rob THEN 1 ELSE 1 + (r[8] % 2)   \* range sizes of different pools stay distinct
               ELSE Pick(<<1, 2, 2, 3, 5>>, r[8])
      max   == Pick(<<0, 1, 2, 3>>, r[9])
      cb    == r[10] % 5 = 0
      len   == 2^ord - Pick(<<0, 0, 1, 2^(ord-1) - 1>>, r[11])
  IN [cfg |-> [ncpu |-> nc, cap |-> 2^(so - ord), ord |-> ord, max |-> max, robust |-> rob, poi |-> rob \/ pset, pt |-> 1, icb |-> FALSE,
               it |-> <<>>, init |-> init, glob |-> glob],
      line |-> "create " \o S(p) \o " 1 " \o (IF glob THEN "1 " ELSE "0 ") \o S(pol) \o (IF rob THEN " 1 " ELSE " 0 ")
               \o (IF pset THEN "1 " ELSE "0 ") \o Pick(Poisons, r[12]) \o " " \o S(nc) \o " " \o S(2^so) \o " " \o S(len) \o " " \o S(max)
               \o (IF cb THEN " 1 " ELSE " 0 ") \o S(Pick(<<0, 1, 5, 280>>, r[1] \div 7))]

Init == /\ w = NoWorld /\ c = NoWorld /\ nh = 0 /\ done = FALSE /\ forked = FALSE
        /\ hist \in {<<"place " \o S(R(0..3)) \o " 16384">>}
Say(x) == hist' = Append(hist, x)
Keep == UNCHANGED <<done, forked>>
Pre(x) == IF x = 0 THEN "" ELSE "c "

FreeSlots(x, p) == AllSlots(x, p) \ LiveSlots(x, p)
ZeroC(x, p) == [i \in 1..x.pools[p].cfg.ncpu |-> 0]
\* allocate in any slot the specification allows (the driver reports which one the code chose)
DoMalloc(x, y, p, h) ==
  IF ~HasRoom(x, p) THEN y = x
  ELSE \E s \in {IF FreeSlots(x, p) = {} THEN <<Cardinality(x.pools[p].K), 0>> ELSE R(FreeSlots(x, p))} :
         y = MallocOk(x, p, h, s[1], s[2], ZeroC(x, p))
Create == \E p \in 0..NPools-1 : \E r \in {Rnd(9999)} : \E m \in {MkCfg(p, r)} :
  /\ p \notin DOMAIN w.pools /\ \A q \in 0..p-1 : q \in DOMAIN w.pools
  /\ w' = CreateOk(w, p, m.cfg) /\ Say(m.line)
  /\ UNCHANGED <<c, nh>> /\ Keep
Usable(x) == {p \in DOMAIN x.pools : ~x.pools[p].inac}
Malloc(who, x, y) ==
  /\ Usable(x) # {}
  /\ \E p \in {R(Usable(x))} : \E r \in {Rnd(9999)} :
       LET n == 2^(x.pools[p].cfg.ord)
           kind == Pick(<<"p", "z", "i">>, r[1])
           ln == Pick(<<n, n, n - 1, n \div 2, 1, 0, n + 1>>, r[2])
       IN /\ IF kind = "i" /\ ln > n THEN y = x ELSE DoMalloc(x, y, p, nh)
          /\ Say(Pre(who) \o "malloc " \o S(p) \o " " \o kind \o " " \o S(nh) \o " " \o S(ln) \o " " \o S((r[3] % 30) + 1))
  /\ nh' = nh + 1
LiveU(x) == {h \in Live(x) : CanFree(x, h)}
FreeOp(who, x, y) == LiveU(x) # {} /\ \E h \in {R(LiveU(x))} : y = FreeOk(x, h) /\ Say(Pre(who) \o "free " \o S(h)) /\ nh' = nh
WriteOp(who, x, y) ==
  /\ LiveU(x) # {}
  /\ \E h \in {R(LiveU(x))} : \E r \in {Rnd(9999)} :
       LET cpu == r[1] % x.pools[x.items[h].p].cfg.ncpu
       IN /\ y = x
          /\ Say(Pre(who) \o (IF r[2] % 4 = 0 THEN "poke " \o S(h) \o " " \o S(cpu) \o " " \o S(Pick(<<0, 7, 8, 100, -1, -8>>, r[3]))
                              ELSE "write " \o S(h) \o " " \o S(cpu) \o " " \o S((r[3] % 40) + 1)))
  /\ nh' = nh
SetLens == <<0, 1, 8, 1000, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 16384, 16385, 32768, 65536, 65537, 131072, 262144, 262145>>
SetOps ==
  /\ Profile = "set"
  /\ \/ ~w.set.on /\ w' = [w EXCEPT !.set.on = TRUE] /\ Say("setcreate") /\ UNCHANGED <<c, nh>> /\ Keep
     \/ /\ w.set.on /\ DOMAIN w.pools \ SetPools(w) # {}
        /\ \E p \in {R(DOMAIN w.pools \ SetPools(w))} : w' = (IF SetAddOk(w, p) THEN SetAdd(w, p) ELSE w) /\ Say("setadd " \o S(p))
        /\ UNCHANGED <<c, nh>> /\ Keep
     \/ /\ w.set.on /\ SetPools(w) # {}
        /\ \E r \in {Rnd(9999)} :
           LET ln == Pick(SetLens, r[1])
               ord == IF ln <= 8 THEN 3 ELSE CHOOSE o \in 3..24 : 2^(o-1) < ln /\ ln <= 2^o
               p == Serving(w, ord, {})
           IN /\ IF p = -1 THEN w' = w ELSE DoMalloc(w, w', p, nh)
              /\ Say("smalloc -1 " \o Pick(<<"p", "z", "i">>, r[2]) \o " " \o S(nh) \o " " \o S(ln) \o " " \o S((r[3] % 30) + 1))
        /\ nh' = nh + 1 /\ UNCHANGED c /\ Keep
Destroy(who, x, y) ==
  LET X == {p \in DOMAIN x.pools : p \notin SetPools(x) /\ ~Leaky(x, p)} IN
  X # {} /\ \E p \in {R(X)} : y = DestroyOk(x, p) /\ Say(Pre(who) \o "destroy " \o S(p)) /\ nh' = nh
ParentOp(A(_, _, _)) == A(0, w, w') /\ UNCHANGED c /\ Keep
ChildOp(A(_, _, _)) == forked /\ A(1, c, c') /\ UNCHANGED w /\ Keep
ForkA == /\ Profile = "fork" /\ ~forked /\ DOMAIN w.pools # {} /\ Len(hist) > 4
         /\ c' = ForkWorld(w) /\ forked' = TRUE /\ Say("fork") /\ UNCHANGED <<w, nh, done>>
Finish == /\ Len(hist) >= Len_ /\ ~done
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ done' = TRUE /\ UNCHANGED <<w, c, hist, nh, forked>>
Step == /\ Len(hist) < Len_
        /\ \/ Create
           \/ ParentOp(Malloc) \/ (Profile # "set" /\ ParentOp(Malloc)) \/ (Profile = "fill" /\ ParentOp(Malloc))
           \/ ParentOp(FreeOp) \/ (Profile # "fill" /\ ParentOp(FreeOp))
           \/ (Profile # "fill" /\ ParentOp(WriteOp)) \/ (Profile = "content" /\ ParentOp(WriteOp))
           \/ (\E x \in {OneIn(8)} : x /\ ParentOp(Destroy))
           \/ SetOps \/ SetOps
           \/ ForkA
           \/ ChildOp(Malloc) \/ ChildOp(FreeOp) \/ ChildOp(WriteOp) \/ ChildOp(Destroy)
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
