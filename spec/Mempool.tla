------------------------------ MODULE Mempool ------------------------------
(***************************************************************************)
(* Abstract state machine of librseq's memory pools and pool sets.         *)
(* A "world" is the state of one process:                                  *)
(*   pools : id -> pool        items : handle -> item       set : pool set *)
(* All operators below are pure functions/predicates over worlds, so the   *)
(* same definitions serve the exhaustive model (MempoolMC), the            *)
(* refinement check of the implementation-shaped model (MempoolImpl), the  *)
(* generator of operation scripts (MempoolGen) and trace validation        *)
(* (MempoolTrace).                                                         *)
(*                                                                         *)
(* An item occupies slot s of range r of its pool, at the same offset on   *)
(* each of the pool's CPUs.  Its content is one token per CPU; token 0     *)
(* means all zero.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoWorld == [pools |-> <<>>, items |-> <<>>, set |-> [on |-> FALSE, m |-> <<>>]]

\* pool configuration: ncpu, cap (slots per range), ord (log2 item size), max (0: unlimited), robust, poi (poisoning on), pt (poison token),
\* icb (has init callback), it (token of the callback's pattern, per CPU), init (TRUE: COW_INIT policy)
NewPool(cfg) == [cfg |-> cfg, K |-> {}, inac |-> FALSE, flbad |-> FALSE, used |-> {}, own |-> {}]

Live(w)        == {h \in DOMAIN w.items : w.items[h].st = "live"}
Freed(w)       == {h \in DOMAIN w.items : w.items[h].st = "freed"}
LiveOf(w, p)   == {h \in Live(w) : w.items[h].p = p}
FreedOf(w, p)  == {h \in Freed(w) : w.items[h].p = p}
Slot(w, h)     == <<w.items[h].r, w.items[h].s>>
LiveSlots(w, p) == {Slot(w, h) : h \in LiveOf(w, p)}
AllSlots(w, p)  == w.pools[p].K \X (0 .. w.pools[p].cfg.cap - 1)
Full(w, p)      == LiveSlots(w, p) = AllSlots(w, p)          \* no free slot in any range known to exist
AtLimit(w, p)   == /\ w.pools[p].cfg.max > 0
                   /\ Cardinality(w.pools[p].K) >= w.pools[p].cfg.max
Bad(w, p)       == {h \in FreedOf(w, p) : w.items[h].bad}
HasRoom(w, p)   == ~(Full(w, p) /\ AtLimit(w, p))

Without(f, D) == [x \in DOMAIN f \ D |-> f[x]]

---------------------------------------------------------------------------
\* Pool creation
CreateOk(w, p, cfg) == [w EXCEPT !.pools = (p :> NewPool(cfg)) @@ w.pools]

\* Allocation of slot <<r,s>>: where may an allocation be served?
MayServe(w, p, r, s) ==
  LET P == w.pools[p] IN
  /\ ~P.inac
  /\ s \in 0 .. P.cfg.cap - 1
  /\ <<r, s>> \notin LiveSlots(w, p)
  /\ r \in P.K \/ (Full(w, p) /\ ~AtLimit(w, p))              \* grows only when no free slot remains, never past the limit
  /\ ~\E h \in Bad(w, p) : Slot(w, h) = <<r, s>>               \* a corrupted item is never handed out
Fresh(w, p, r, s) == <<r, s>> \notin w.pools[p].used
MallocOk(w, p, h, r, s, toks) ==
  LET old == {g \in FreedOf(w, p) : Slot(w, g) = <<r, s>>} IN
  [w EXCEPT !.pools[p].K = @ \cup {r},
            !.pools[p].used = @ \cup {<<r, s>>},
            !.items = (h :> [p |-> p, r |-> r, s |-> s, st |-> "live", c |-> toks, bad |-> FALSE]) @@ Without(w.items, old)]
\* what the new item must read as
ContentOk(w, p, r, s, kind, toks, t, pre) ==
  LET P == w.pools[p] IN
  /\ Len(toks) = P.cfg.ncpu
  /\ kind = "z" => \A c \in DOMAIN toks : toks[c] = 0
  /\ kind = "i" => pre /\ (t >= 0 => \A c \in DOMAIN toks : toks[c] = t)
  /\ kind = "p" /\ P.cfg.icb /\ Fresh(w, p, r, s) => toks = P.cfg.it
  /\ kind = "p" /\ P.cfg.robust /\ ~Fresh(w, p, r, s) => \A c \in DOMAIN toks : toks[c] = P.cfg.pt
MallocNoMem(w, p) == ~HasRoom(w, p)

\* Free
CanFree(w, h) == h \in Live(w) /\ ~w.pools[w.items[h].p].inac
FreeOk(w, h) == [w EXCEPT !.items[h] = [@ EXCEPT !.st = "freed", !.bad = FALSE]]
MisFree(w, p, r, s) == w.pools[p].cfg.robust /\ <<r, s>> \notin LiveSlots(w, p)

\* User stores
WriteOk(w, h, c, t) == [w EXCEPT !.items[h].c[c] = t]
CorruptOk(w, h) == [w EXCEPT !.items[h].bad = TRUE]

\* Destruction
Leaky(w, p) == w.pools[p].cfg.robust /\ ~w.pools[p].inac
               /\ (LiveOf(w, p) # {} \/ Bad(w, p) # {} \/ w.pools[p].flbad)
DestroyOk(w, p) == [w EXCEPT !.pools = Without(w.pools, {p}),
                             !.items = Without(w.items, LiveOf(w, p) \cup FreedOf(w, p))]

\* Fork: the child has its own copy; COW_INIT pools are inaccessible there (but can be destroyed)
ForkWorld(w) == [w EXCEPT !.pools = [p \in DOMAIN w.pools |-> [w.pools[p] EXCEPT !.inac = @ \/ w.pools[p].cfg.init]]]

---------------------------------------------------------------------------
\* Population.  pools[p].own: the pages <<range, cpu, page>> that may have memory of their own; every other page of a CPU's area is still
\* the zero page (COW_ZERO) or the shared page of initial values (COW_INIT).  A store to an item on a CPU justifies that item's pages there;
\* in COW_ZERO pools so do non-zero initial content and poison (every CPU), and the free list of pools that are not robust (first CPU).
PageLen == 4096
ItemPages(P, s) == (s * 2^P.cfg.ord) \div PageLen .. ((s + 1) * 2^P.cfg.ord - 1) \div PageLen
OnCpus(w, p, r, s, C) == {<<r, c, g>> : c \in C, g \in ItemPages(w.pools[p], s)}
AllocOwns(w, p, r, s, nz) == IF ~w.pools[p].cfg.init /\ nz THEN OnCpus(w, p, r, s, 1..w.pools[p].cfg.ncpu) ELSE {}
FreeOwns(w, p, r, s) ==
  LET P == w.pools[p] IN
  IF P.cfg.init THEN {}
  ELSE OnCpus(w, p, r, s, IF P.cfg.poi /\ P.cfg.pt # 0 THEN 1..P.cfg.ncpu ELSE IF ~P.cfg.robust THEN {1} ELSE {})
StoreOwns(w, h, c) == OnCpus(w, w.items[h].p, w.items[h].r, w.items[h].s, {c})
Own(w, p, pages) == [w EXCEPT !.pools[p].own = @ \cup pages]

---------------------------------------------------------------------------
\* Pool sets.  set.m maps a log2 item size to the pool holding it.
SetAddOk(w, p)   == w.pools[p].cfg.ord \notin DOMAIN w.set.m
SetAdd(w, p)     == [w EXCEPT !.set.m = (w.pools[p].cfg.ord :> p) @@ w.set.m]
SetPools(w)      == {w.set.m[o] : o \in DOMAIN w.set.m}
Fitting(w, ord)  == {o \in DOMAIN w.set.m : o >= ord}
\* the pool that must serve: the smallest that fits and has room, not counting those in "skip" (a resource failure hit them)
Serving(w, ord, skip) ==
  LET C == {o \in Fitting(w, ord) : HasRoom(w, w.set.m[o]) /\ w.set.m[o] \notin skip} IN
  IF C = {} THEN -1 ELSE w.set.m[CHOOSE o \in C : \A q \in C : o <= q]
SetDestroyOk(w) ==
  LET ps == SetPools(w) IN
  [w EXCEPT !.pools = Without(w.pools, ps),
            !.items = Without(w.items, {h \in DOMAIN w.items : w.items[h].p \in ps}),
            !.set = [on |-> FALSE, m |-> <<>>]]

---------------------------------------------------------------------------
\* Invariants of every reachable world
Exclusive(w) == \A g, h \in Live(w) : g # h /\ w.items[g].p = w.items[h].p => Slot(w, g) # Slot(w, h)
Bounded(w)   == \A p \in DOMAIN w.pools :
                  /\ w.pools[p].cfg.max > 0 => Cardinality(w.pools[p].K) <= w.pools[p].cfg.max
                  /\ \A h \in LiveOf(w, p) : Slot(w, h) \in AllSlots(w, p)
\* ranges are only ever added when full: all slots of all but the newest range were in use at some time
Compact(w)   == \A p \in DOMAIN w.pools : w.pools[p].used \subseteq AllSlots(w, p)
NoDangling(w) == \A h \in DOMAIN w.items : w.items[h].p \in DOMAIN w.pools
WorldInv(w) == Exclusive(w) /\ Bounded(w) /\ Compact(w) /\ NoDangling(w)
=============================================================================
