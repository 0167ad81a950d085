--------------------------- MODULE MempoolTrace ---------------------------
(* Accepts a log of the memory-pool driver iff it is a behaviour of Mempool. *)
EXTENDS Mempool, Words, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES W,      \* process (0 parent, 1 forked child) -> world
          acct,   \* process -> resources owned after the previous call
          dead,   \* processes that terminated
          l
vars == <<W, acct, dead, l>>

Chk(name, c) == IF c THEN TRUE ELSE PrintT("REASON " \o ToString(l) \o " " \o name) /\ FALSE
NoAcct == [pg |-> 0, hp |-> 0]
Init == W = [x \in 0..1 |-> NoWorld] /\ acct = [x \in 0..1 |-> NoAcct] /\ dead = {} /\ l = 1 /\ TLCSet(1, 1)

---------------------------------------------------------------------------
\* The state projected by the driver after a call must be the specified one.
TailSeq(s) == SubSeq(s, 2, Len(s))
Visible(w, h) == ~w.pools[w.items[h].p].inac
Contents(e, w) ==
  IF "c" \notin DOMAIN e THEN TRUE ELSE
  LET seen == {e.c[i][1] : i \in DOMAIN e.c} IN
  /\ Chk("live items observed", seen = {h \in Live(w) : Visible(w, h)})
  /\ \A i \in DOMAIN e.c : Chk("content of item " \o ToString(e.c[i][1]), TailSeq(e.c[i]) = w.items[e.c[i][1]].c)
  /\ \A i \in DOMAIN e.f : LET h == e.f[i][1] IN
        /\ Chk("freed item known", h \in Freed(w))
        /\ IF w.items[h].bad THEN TRUE ELSE Chk("poison of freed item " \o ToString(h),
             \A j \in 2..Len(e.f[i]) : e.f[i][j] <= IF w.pools[w.items[h].p].cfg.robust THEN 0 ELSE 1)
Resources(e, w, inac) ==
  /\ Chk("touched a foreign mapping or descriptor", e.wild = 0)
  /\ Chk("descriptor kept open", e.fd = 0)
  /\ (DOMAIN w.pools = {} /\ ~w.set.on) => /\ Chk("heap leak", e.hp = 0)
                                           /\ IF inac THEN TRUE ELSE Chk("mapping leak", e.pg = 0)
\* pools whose init callback stored to every CPU's area have nothing left to populate
Population(e, w) ==
  IF "pv" \notin DOMAIN e THEN TRUE ELSE
  \A i \in DOMAIN e.pv : LET x == e.pv[i] IN
     Chk("CPU page populated without cause " \o ToString(x), w.pools[x[1]].cfg.icb \/ <<x[2], x[3], x[4]>> \in w.pools[x[1]].own)
Post(e, w) == /\ "c" \in DOMAIN e => WorldInv(w)
              /\ Population(e, w)
              /\ Contents(e, w)
              /\ W' = [W EXCEPT ![e.pr] = w]
              /\ acct' = [acct EXCEPT ![e.pr] = [pg |-> e.pg, hp |-> e.hp]]
              /\ UNCHANGED dead
Done(e, w) == Resources(e, w, FALSE) /\ Post(e, w)
Same(e) == Chk("failed call changed resources", e.pg = acct[e.pr].pg /\ e.hp = acct[e.pr].hp) /\ Done(e, W[e.pr])

---------------------------------------------------------------------------
\* page bookkeeping only when the driver reports pages
Paged(e, w, p, pages) == IF "pv" \in DOMAIN e THEN Own(w, p, pages) ELSE w
\* Creation: which configurations are valid, and what they mean
Eff(e) ==
  LET glob == e.attr = 1 /\ e.typ = 1
      pol  == IF e.attr = 1 THEN e.pol ELSE 0
      nc   == IF glob THEN 1 ELSE IF e.attr = 0 \/ e.nc = 0 THEN e.gmax ELSE e.nc
      st   == IF e.stride = W0 THEN WPow(16) ELSE e.stride
      io   == LET o == WCeilLog2(e.ilen) IN IF o < 3 THEN 3 ELSE o
      init == pol = 0 /\ ~glob
  IN [glob |-> glob, pol |-> pol, nc |-> nc, st |-> st, so |-> WTop(st), io |-> io, init |-> init, rob |-> e.rob = 1 /\ e.attr = 1,
      ext |-> (IF init THEN 1 ELSE 0) + (IF e.rob = 1 /\ e.attr = 1 THEN 1 ELSE 0)]
CfgValid(e, f) == /\ f.pol \in {0, 1}
                  /\ f.glob \/ e.attr = 0 \/ e.nc >= 0
                  /\ f.nc > 0
                  /\ WPow2(f.st) /\ f.so >= 12
                  /\ f.io <= f.so
\* total size (nc + ext strides) against 2^64; "near" covers the rounding slack where any error is right
TooBig(f) == f.so >= 34 /\ f.nc >= 2^(64 - f.so) - f.ext
Near(f)   == \/ f.so >= 34 /\ f.nc >= 2^(64 - f.so) - f.ext - 2
             \/ f.so = 33 /\ f.nc >= 2147483640
\* mappings above 1 GiB may legitimately fail for lack of memory (the driver refuses those above 2 GiB)
\* and so may pools needing more separate mappings than the kernel allows a process
Large(f)  == f.so >= 30 \/ (f.init /\ f.nc >= 30000) \/ f.nc >= 2^(30 - f.so) - f.ext - 2
\* init-callback batch for one new range: every CPU exactly once, its own area and the stride as length
IcbOk(cfg, glob, icb) ==
  /\ Len(icb) = cfg.ncpu
  /\ \A i \in DOMAIN icb : icb[i][2] = 1 /\ icb[i][3] = 1 /\ icb[i][5] = 1
  /\ IF glob THEN \A i \in DOMAIN icb : icb[i][1] = -1
     ELSE /\ {icb[i][1] : i \in DOMAIN icb} = 0 .. cfg.ncpu - 1
          /\ \A i \in DOMAIN icb : icb[i][4] = icb[i][1]
Create(e) ==
  LET f == Eff(e)
      w == W[e.pr]
      valid == CfgValid(e, f)
  IN
  /\ Chk("attribute setters", e.aok = 1)
  /\ IF ~valid \/ TooBig(f)
     THEN Chk("invalid configuration must be refused", e.res = IF valid /\ Near(f) /\ ~TooBig(f) THEN e.res ELSE "EINVAL") /\ Same(e)
     ELSE IF e.res = "ok"
     THEN LET cfg == [ncpu |-> f.nc, cap |-> 2^(f.so - f.io), ord |-> f.io, max |-> e.max, robust |-> f.rob,
                      poi |-> f.rob \/ (e.pset = 1 /\ e.attr = 1), pt |-> IF e.pz = 1 THEN 0 ELSE 1,
                      icb |-> e.cb = 1 /\ e.attr = 1, it |-> e.it, init |-> f.init, glob |-> f.glob]
          IN /\ Chk("created despite a failed resource request", e.flt = 0)
             /\ Chk("created an unrepresentable pool", ~Near(f))
             /\ Chk("max_nr_cpus", e.gm = IF f.glob THEN -1 ELSE f.nc)
             /\ Chk("init callback", IF cfg.icb THEN IcbOk(cfg, f.glob, e.icb) ELSE e.icb = <<>>)
             /\ Done(e, CreateOk(w, e.p, cfg))
     ELSE /\ Chk("valid configuration refused", e.flt > 0 \/ Large(f))
          /\ Chk("error code", e.res = "ENOMEM" \/ (Near(f) /\ e.res = "EINVAL"))
          /\ Same(e)

NewRangeIcb(e, P, new) == Chk("init callback for range", IF P.cfg.icb /\ new /\ P.K # {} THEN IcbOk(P.cfg, P.cfg.glob, e.icb) ELSE e.icb = <<>>)
\* result of an allocation that succeeded in pool p
Served(e, p) ==
  LET w == W[e.pr]
      P == w.pools[p]
      toks == IF "c" \in DOMAIN e
              THEN LET i == CHOOSE i \in DOMAIN e.c : e.c[i][1] = e.h IN TailSeq(e.c[i])
              ELSE [c \in 1..P.cfg.ncpu |-> 0]
  IN
  /\ Chk("served by another pool", e.p = p)
  /\ Chk("alignment", e.al = 1) /\ Chk("outside the mapping", e.inm = 1) /\ Chk("overlaps a live item", e.ov = 0)
  /\ Chk("slot not available", MayServe(w, p, e.r, e.s))
  /\ Chk("grew although a slot was free", e.r \in P.K => e.pg = acct[e.pr].pg)
  /\ NewRangeIcb(e, P, e.r \notin P.K)
  /\ IF "c" \notin DOMAIN e THEN TRUE ELSE Chk("initial content", ContentOk(w, p, e.r, e.s, e.kind, toks, e.t, e.pre = 1))
  /\ Chk("init source modified", e.src = 1)
  /\ LET v == MallocOk(w, p, e.h, e.r, e.s, toks) IN Done(e, Paged(e, v, p, AllocOwns(v, p, e.r, e.s, e.nz = 1)))
Malloc(e) ==
  LET w == W[e.pr] IN
  /\ e.p \in DOMAIN w.pools
  /\ IF e.kind = "i" /\ WLt(WPow(w.pools[e.p].cfg.ord), e.len)
     THEN Chk("oversized init refused", e.res = "EINVAL") /\ Same(e)
     ELSE IF e.res = "ok" THEN Chk("served despite failed request", e.flt = 0) /\ Served(e, e.p)
     ELSE /\ Chk("errno", e.res = "ENOMEM")
          /\ Chk("spurious out of memory", MallocNoMem(w, e.p) \/ e.flt > 0)
          /\ Same(e)
SMalloc(e) ==
  LET w == W[e.pr]
      ord == LET o == WCeilLog2(e.len) IN IF o < 3 THEN 3 ELSE o
      p == Serving(w, ord, {})
  IN
  /\ w.set.on
  /\ IF e.res = "ok"
     THEN IF e.flt = 0 THEN Served(e, p)
          ELSE \* a resource failure made one pool unable to grow: the next fitting pool serves
               p # -1 /\ Served(e, Serving(w, ord, {p}))
     ELSE /\ Chk("errno", e.res = "ENOMEM")
          /\ Chk("spurious out of memory", p = -1 \/ (e.flt > 0 /\ Serving(w, ord, {p}) = -1))
          /\ Same(e)
Free(e) ==
  /\ Chk("freeing an unallocated item was not detected", CanFree(W[e.pr], e.h))
  /\ LET w == W[e.pr]
         i == w.items[e.h] IN Done(e, Paged(e, FreeOk(w, e.h), i.p, FreeOwns(w, i.p, i.r, i.s)))
FreeRaw(e) ==   \* survives only in pools without checks; the generator never frees raw slots there
  Chk("freeing an unallocated slot was not detected", FALSE)
Stored(e, w) == Paged(e, w, w.items[e.h].p, StoreOwns(w, e.h, e.cpu + 1))
Write(e) == Done(e, Stored(e, WriteOk(W[e.pr], e.h, e.cpu + 1, e.t)))
Poke(e) == LET w == Stored(e, W[e.pr]) IN
           IF w.items[e.h].st = "live" THEN Done(e, WriteOk(w, e.h, e.cpu + 1, e.t)) ELSE Done(e, CorruptOk(w, e.h))
FlCorrupt(e) == Done(e, IF e.chg = 1 THEN [W[e.pr] EXCEPT !.pools[e.p].flbad = TRUE] ELSE W[e.pr])
Destroy(e) ==
  LET w == W[e.pr]
      rest == DOMAIN w.pools \ {e.p}
      inac == w.pools[e.p].inac
  IN
  IF e.res = 0
  THEN /\ Chk("destroy reported success although unmapping failed", e.flt = 0)
       /\ Chk("misuse not detected at destroy", ~Leaky(w, e.p))
       /\ rest = {} /\ 1 \notin dead => Chk("pages still mapped after destroy", e.mapped = 0 \/ "hole" \in DOMAIN acct[e.pr])
       /\ Resources(e, DestroyOk(w, e.p), e.pr = 1)
       /\ Post(e, DestroyOk(w, e.p))
  ELSE /\ Chk("destroy failed for no reason", e.flt > 0 /\ e.res = -1)
       /\ Chk("misuse not detected at destroy", ~Leaky(w, e.p))
       \* the pool can only be destroyed again
       /\ Resources(e, w, TRUE)
       /\ Post(e, [w EXCEPT !.pools[e.p].inac = TRUE])
SetDestroy(e) ==
  LET w == W[e.pr] IN
  /\ Chk("misuse not detected at set destroy", \A p \in SetPools(w) : ~Leaky(w, p))
  /\ IF e.res = 0
     THEN /\ Chk("set destroy reported success although unmapping failed", e.flt = 0)
          /\ DOMAIN w.pools = SetPools(w) => Chk("pages still mapped after set destroy", e.mapped = 0)
          /\ Resources(e, SetDestroyOk(w), e.pr = 1)
          /\ Post(e, SetDestroyOk(w))
     ELSE /\ Chk("set destroy failed for no reason", e.flt > 0 /\ e.res = -1)
          \* some of its pools may be gone; the set can only be destroyed again
          /\ Resources(e, w, TRUE)
          /\ Post(e, [w EXCEPT !.pools = [p \in DOMAIN w.pools |-> IF p \in SetPools(w) THEN [w.pools[p] EXCEPT !.inac = TRUE] ELSE w.pools[p]]])
SetAddA(e) ==
  LET w == W[e.pr] IN
  IF SetAddOk(w, e.p) THEN Chk("add refused", e.res = "ok") /\ Done(e, SetAdd(w, e.p))
  ELSE Chk("second pool of a size accepted", e.res = "EBUSY") /\ Same(e)
\* A process may be terminated only by the detection of a real misuse.
Justified(w, e) ==
  LET CanAbort(p) == p \in DOMAIN w.pools /\ w.pools[p].cfg.robust /\ ~w.pools[p].inac IN
  /\ e.sig = 6
  /\ CASE e.op = "free"    -> CanAbort(e.p) /\ e.h \notin Live(w)
       [] e.op = "freeraw" -> CanAbort(e.p)
       [] e.op = "malloc"  -> CanAbort(e.p) /\ Bad(w, e.p) # {}
       [] e.op = "smalloc" -> \E p \in SetPools(w) : CanAbort(p) /\ Bad(w, p) # {}
       [] e.op = "destroy" -> Leaky(w, e.p)
       [] e.op = "setdestroy" -> \E p \in SetPools(w) : Leaky(w, p)
       [] OTHER -> FALSE
Crash(e) == /\ Chk("process terminated in " \o e.op \o " by signal " \o ToString(e.sig), Justified(W[e.pr], e))
            /\ dead' = dead \cup {e.pr}
            /\ UNCHANGED <<W, acct>>

Step(e) ==
  CASE e.e = "reset" -> /\ W' = [x \in 0..1 |-> NoWorld] /\ acct' = [x \in 0..1 |-> NoAcct] /\ dead' = {}
    [] e.e = "create" -> Create(e)
    [] e.e = "malloc" -> Malloc(e)
    [] e.e = "smalloc" -> SMalloc(e)
    [] e.e = "free" -> Free(e)
    [] e.e = "freeraw" -> FreeRaw(e)
    [] e.e = "write" -> Write(e)
    [] e.e = "poke" -> Poke(e)
    [] e.e = "flcorrupt" -> FlCorrupt(e)
    [] e.e = "destroy" -> Destroy(e)
    \* a CPU's view of a pointer lies that many strides further on
    [] e.e = "ptr" -> Chk("per-CPU address", e.d = WShl(WInt(e.cpu), e.so)) /\ UNCHANGED <<W, acct, dead>>
    [] e.e = "destroynull" -> Chk("destroy(NULL)", e.res = 0) /\ Same(e)
    [] e.e = "attrnull" -> Chk("missing object refused", e.ok = 1) /\ Same(e)
    [] e.e = "setcreate" -> IF e.res = "ok" THEN Chk("flt", e.flt = 0) /\ Done(e, [W[e.pr] EXCEPT !.set = [on |-> TRUE, m |-> <<>>]])
                            ELSE Chk("set create", e.flt > 0) /\ Same(e)
    [] e.e = "setadd" -> SetAddA(e)
    [] e.e = "setdestroy" -> SetDestroy(e)
    [] e.e = "fork" -> /\ W' = [W EXCEPT ![1] = ForkWorld(W[0])] /\ acct' = [acct EXCEPT ![1] = acct[0]] /\ dead' = {}
    [] e.e = "join" -> W' = [W EXCEPT ![1] = NoWorld] /\ UNCHANGED <<acct, dead>>
    [] e.e = "hole" -> /\ acct' = [acct EXCEPT ![e.pr] = [hole |-> 1] @@ @] /\ UNCHANGED <<W, dead>>
    [] e.e = "holecheck" -> Chk("foreign mapping damaged", e.ok = 1) /\ UNCHANGED <<W, acct, dead>>
    [] e.e = "skipped" -> UNCHANGED <<W, acct, dead>>
    [] e.e = "crash" -> Crash(e)
    [] OTHER -> FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Reg == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
Accepted == /\ PrintT(<<"REACHED", TLCGet(1), Len(Trace)>>)
            /\ IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT("REJECTED") /\ FALSE
=============================================================================
