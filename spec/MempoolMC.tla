----------------------------- MODULE MempoolMC -----------------------------
(* Exhaustive exploration of the abstract pools: one process, its forked child, robust and plain pools, a pool set. *)
EXTENDS Mempool
CONSTANTS MaxHandles, Toks, WithFork, NPools, NCfg
VARIABLES w,     \* the process
          c,     \* its forked child, or NoWorld
          aborted

Cfg(cap, max, rob, init, ord) == [ncpu |-> 2, cap |-> cap, ord |-> ord, max |-> max, robust |-> rob, poi |-> rob, pt |-> 1,
                                  icb |-> FALSE, it |-> <<>>, init |-> init, glob |-> FALSE]
AllCfgs == <<Cfg(2, 1, TRUE, FALSE, 3), Cfg(1, 2, FALSE, TRUE, 4), Cfg(1, 2, TRUE, TRUE, 3), Cfg(2, 2, FALSE, FALSE, 3)>>
Configs == {AllCfgs[i] : i \in 1..NCfg}
NewHandle(x) == CHOOSE h \in 0..MaxHandles : h \notin DOMAIN x.items
CanAlloc(x) == Cardinality(DOMAIN x.items) < MaxHandles
Poison(x, h) == IF x.pools[x.items[h].p].cfg.poi THEN [i \in 1..2 |-> 1] ELSE x.items[h].c

\* all steps of one process from world x to world y
Alloc(x, y) == \E p \in DOMAIN x.pools, kind \in {"p", "z", "i"}, r \in 0..1, s \in 0..1, t \in [1..2 -> Toks] :
  /\ CanAlloc(x)
  /\ r = Cardinality(x.pools[p].K) \/ r \in x.pools[p].K
  /\ MayServe(x, p, r, s)
  /\ ContentOk(x, p, r, s, kind, t, 2, \A i \in 1..2 : t[i] = 2)
  /\ y = MallocOk(x, p, NewHandle(x), r, s, t)
Release(x, y) == \E h \in Live(x) : CanFree(x, h) /\ y = FreeOk(x, h)
Store(x, y) == \E h \in Live(x), i \in 1..2, t \in Toks : ~x.pools[x.items[h].p].inac /\ y = WriteOk(x, h, i, t)
Corrupt(x, y) == \E h \in Freed(x) : x.pools[x.items[h].p].cfg.robust /\ ~x.pools[x.items[h].p].inac /\ y = CorruptOk(x, h)
Make(x, y) == \E p \in 0..NPools-1, f \in Configs : p \notin DOMAIN x.pools /\ y = CreateOk(x, p, f)
Kill(x, y) == \E p \in DOMAIN x.pools : ~Leaky(x, p) /\ p \notin SetPools(x) /\ y = DestroyOk(x, p)
Sets(x, y) == \/ ~x.set.on /\ y = [x EXCEPT !.set.on = TRUE]
              \/ x.set.on /\ \E p \in DOMAIN x.pools : p \notin SetPools(x) /\ SetAddOk(x, p) /\ y = SetAdd(x, p)
              \/ x.set.on /\ (\A p \in SetPools(x) : ~Leaky(x, p)) /\ y = SetDestroyOk(x)
SetAlloc(x, y) == \E ord \in 3..4, r \in 0..1, s \in 0..1 : LET p == Serving(x, ord, {}) IN
  /\ x.set.on /\ p # -1 /\ CanAlloc(x)
  /\ r = Cardinality(x.pools[p].K) \/ r \in x.pools[p].K
  /\ MayServe(x, p, r, s) /\ y = MallocOk(x, p, NewHandle(x), r, s, <<0, 0>>)
Proc(x, y) == Alloc(x, y) \/ Release(x, y) \/ Store(x, y) \/ Corrupt(x, y) \/ Make(x, y) \/ Kill(x, y) \/ Sets(x, y) \/ SetAlloc(x, y)

Worlds == TRUE
Init == w = NoWorld /\ c = NoWorld /\ aborted = FALSE
\* the existential over y is resolved by writing the primed variable
AllocA == Alloc(w, w') /\ UNCHANGED <<c, aborted>>
ReleaseA == Release(w, w') /\ UNCHANGED <<c, aborted>>
StoreA == Store(w, w') /\ UNCHANGED <<c, aborted>>
CorruptA == Corrupt(w, w') /\ UNCHANGED <<c, aborted>>
MakeA == Make(w, w') /\ UNCHANGED <<c, aborted>>
KillA == Kill(w, w') /\ UNCHANGED <<c, aborted>>
SetsA == Sets(w, w') /\ UNCHANGED <<c, aborted>>
SetAllocA == SetAlloc(w, w') /\ UNCHANGED <<c, aborted>>
ForkA == WithFork /\ c = NoWorld /\ DOMAIN w.pools # {} /\ c' = ForkWorld(w) /\ UNCHANGED <<w, aborted>>
ChildA == WithFork /\ c # NoWorld /\ (Alloc(c, c') \/ Release(c, c') \/ Store(c, c') \/ Kill(c, c')) /\ UNCHANGED <<w, aborted>>
\* detection of misuse
AbortA == /\ \/ \E p \in DOMAIN w.pools : Leaky(w, p)
             \/ \E h \in Freed(w) : w.pools[w.items[h].p].cfg.robust
          /\ aborted' = TRUE /\ UNCHANGED <<w, c>>
Next == ~aborted /\ (AllocA \/ ReleaseA \/ StoreA \/ CorruptA \/ MakeA \/ KillA \/ SetsA \/ SetAllocA \/ ForkA \/ ChildA \/ AbortA)
Spec == Init /\ [][Next]_<<w, c, aborted>>

Inv == WorldInv(w) /\ WorldInv(c)
\* the content of a live item changes only through a store to that item: never through calls on other items, nor from the other process
Isolation == [][\A h \in Live(w) : h \in DOMAIN w'.items /\ w'.items[h].st = "live" /\ w'.items[h].c # w.items[h].c
                 => \A g \in Live(w) \ {h} : g \in DOMAIN w'.items => w'.items[g] = w.items[g]]_<<w, c>>
ForkIsolation == [][w' = w \/ c' = c]_<<w, c>>
\* a corrupted item never becomes live again
NeverHandedOut == [][\A h \in Freed(w) : w.items[h].bad =>
                      ~\E g \in Live(w') : g \notin Live(w) /\ w'.items[g].p = w.items[h].p /\ Slot(w', g) = Slot(w, h)]_<<w, c>>
=============================================================================
