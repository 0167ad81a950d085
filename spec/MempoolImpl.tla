---------------------------- MODULE MempoolImpl ----------------------------
(***************************************************************************)
(* Implementation-shaped model of one pool: ranges with a bump pointer, a  *)
(* free list whose links live in memory (in the first CPU's items, in the  *)
(* initial values, or in an area of its own), an allocation bitmap, and    *)
(* per-CPU areas that are copy-on-write views of the zero page (COW_ZERO)  *)
(* or of a shared page of initial values (COW_INIT).  Items are two words; *)
(* a range is one page per CPU.                                            *)
(*                                                                         *)
(* Every step also drives a ghost world of the abstract specification      *)
(* (Mempool); the invariants say that each step is one the abstract        *)
(* specification allows and that the memory reads as it says, i.e. that    *)
(* this design refines Mempool -- contents, placement, growth, poison,     *)
(* misuse detection and lazy population.  Variant selects a faulty design  *)
(* (expected to fail) or "none".                                           *)
(***************************************************************************)
EXTENDS Mempool
CONSTANTS NCpu, Cap, MaxR, CowInit, Robust, Poi, Poison, Vals, Variant
Cpus  == 1..NCpu
Slots == 0..Cap-1
P0 == 0                                             \* the pool's id in the ghost world
Zero == <<0, 0>>
Pois == <<Poison, Poison>>
Link(r, s) == 1000 + 10 * r + s                     \* address of a slot, as stored in a link; 0 is NULL
LinkR(l) == (l - 1000) \div 10
LinkS(l) == (l - 1000) % 10
Tok(i) == 2000 * i[1] + i[2]                        \* content of an item as the ghost world's token
Cfg == [ncpu |-> NCpu, cap |-> Cap, ord |-> 12, max |-> MaxR, robust |-> Robust, poi |-> Poi, pt |-> Tok(Pois), icb |-> FALSE, it |-> <<>>,
        init |-> CowInit, glob |-> FALSE]

VARIABLES rng,     \* ranges, newest first
          nu,      \* range -> next unused slot
          ini,     \* range -> slot -> initial values (COW_INIT)
          own,     \* range -> cpu -> has a page of its own
          mem,     \* range -> cpu -> slot -> item, meaningful when own
          fla,     \* range -> slot -> link (robust pools)
          head,    \* free list head
          bm,      \* allocation bitmap (robust pools)
          w,       \* ghost: abstract world
          ok,      \* ghost: every call so far did what the abstract specification allows
          st       \* "on", "aborted", "gone"
vars == <<rng, nu, ini, own, mem, fla, head, bm, w, ok, st>>

R == 0..MaxR-1
\* one range per page in this model: the ghost's page number of a slot must be 0 for every slot
Pg(r, c) == <<r, c, 0>>
Base(r, s) == IF CowInit THEN ini[r][s] ELSE Zero
View(r, c, s) == IF own[r][c] THEN mem[r][c][s] ELSE Base(r, s)

\* memory as a record, so that a call can be written as a sequence of stores
M == [ini |-> ini, own |-> own, mem |-> mem, fla |-> fla]
MView(m, r, c, s) == IF m.own[r][c] THEN m.mem[r][c][s] ELSE IF CowInit THEN m.ini[r][s] ELSE Zero
Put(m, r, c, s, v) == IF m.own[r][c] THEN [m EXCEPT !.mem[r][c][s] = v]
                      ELSE [m EXCEPT !.own[r][c] = TRUE,
                                     !.mem[r][c] = [x \in Slots |-> IF x = s THEN v ELSE IF CowInit THEN m.ini[r][x] ELSE Zero]]
PutInit(m, r, s, v) == IF CowInit THEN [m EXCEPT !.ini[r][s] = v] ELSE m
\* store v to every CPU that does not already read it; "always": store regardless
RECURSIVE Spread(_, _, _, _, _, _)
Spread(m, r, s, v, n, always) ==
  IF n > NCpu THEN m
  ELSE Spread(IF MView(m, r, n, s) = v /\ ~always THEN m ELSE Put(m, r, n, s, v), r, s, v, n + 1, always)
SetItem(m, r, s, v, always) == Spread(PutInit(m, r, s, v), r, s, v, 1, always)
\* partial initialisation: the first word only
RECURSIVE SpreadW(_, _, _, _, _)
SpreadW(m, r, s, x, n) ==
  IF n > NCpu THEN m
  ELSE LET v == MView(m, r, n, s) IN SpreadW(IF v[1] = x THEN m ELSE Put(m, r, n, s, <<x, v[2]>>), r, s, x, n + 1)
SetWord(m, r, s, x) == SpreadW(IF CowInit THEN [m EXCEPT !.ini[r][s][1] = x] ELSE m, r, s, x, 1)
\* links
PutLink(m, r, s, l) == IF Robust THEN [m EXCEPT !.fla[r][s] = l]
                       ELSE IF CowInit THEN [m EXCEPT !.ini[r][s][1] = l]
                       ELSE Put(m, r, 1, s, <<l, MView(m, r, 1, s)[2]>>)
GetLink(m, r, s) == IF Robust THEN m.fla[r][s] ELSE IF CowInit THEN m.ini[r][s][1] ELSE MView(m, r, 1, s)[1]
SetM(m) == ini' = m.ini /\ own' = m.own /\ mem' = m.mem /\ fla' = m.fla

Init == /\ rng = <<0>> /\ nu = [r \in R |-> 0]
        /\ ini = [r \in R |-> [s \in Slots |-> Zero]]
        /\ own = [r \in R |-> [c \in Cpus |-> FALSE]]
        /\ mem = [r \in R |-> [c \in Cpus |-> [s \in Slots |-> Zero]]]
        /\ fla = [r \in R |-> [s \in Slots |-> 0]]
        /\ head = 0 /\ bm = {}
        /\ w = CreateOk(NoWorld, P0, Cfg) /\ ok = TRUE /\ st = "on"

---------------------------------------------------------------------------
H(r, s) == 10 * r + s
Toks(m, r, s) == [c \in Cpus |-> Tok(MView(m, r, c, s))]
\* what the pop check of a robust pool sees
PopBad(r, s) == \/ CowInit /\ ini[r][s] # Pois
                \/ \E c \in Cpus : View(r, c, s) # Pois
\* the call hands out <<r, s>>: kind "p" plain, "z" zeroed, "i" full content v, "h" first word only
Hand(r, s, kind, v) ==
  LET m == CASE kind = "z" -> SetItem(M, r, s, Zero, Variant = "AlwaysZero")
             [] kind = "i" -> SetItem(M, r, s, v, FALSE)
             [] kind = "h" -> SetWord(M, r, s, v[1])
             [] OTHER -> M
      t == Toks(m, r, s)
      k == IF kind = "h" THEN "i" ELSE kind
      pre == CASE kind = "i" -> \A c \in Cpus : MView(m, r, c, s) = v
               [] kind = "h" -> \A c \in Cpus : MView(m, r, c, s)[1] = v[1]
               [] OTHER -> TRUE
  IN /\ SetM(m)
     /\ ok' = (ok /\ MayServe(w, P0, r, s) /\ ContentOk(w, P0, r, s, k, t, IF kind = "i" THEN Tok(v) ELSE -1, pre))
     /\ w' = LET y == MallocOk(w, P0, H(r, s), r, s, t) IN Own(y, P0, AllocOwns(y, P0, r, 0, (kind = "i" /\ v # Zero) \/ (kind = "h" /\ v[1] # 0)))
     /\ bm' = bm \cup {<<r, s>>}
Malloc(kind, v) ==
  /\ st = "on"
  /\ IF head >= 1000
     THEN LET r == LinkR(head)
              s == LinkS(head) IN
          IF Robust /\ Variant # "NoPopCheck" /\ PopBad(r, s)
          THEN st' = "aborted" /\ ok' = (ok /\ Bad(w, P0) # {}) /\ UNCHANGED <<rng, nu, ini, own, mem, fla, head, bm, w>>
          ELSE /\ head' = GetLink(M, r, s) /\ Hand(r, s, kind, v) /\ UNCHANGED <<rng, nu, st>>
     ELSE IF nu[Head(rng)] < Cap
     THEN LET r == Head(rng)
              s == nu[r] IN
          /\ nu' = [nu EXCEPT ![r] = @ + 1] /\ Hand(r, s, kind, v) /\ UNCHANGED <<rng, head, st>>
     ELSE IF Len(rng) < MaxR
     THEN LET r == Len(rng) IN
          /\ rng' = <<r>> \o rng /\ nu' = [nu EXCEPT ![r] = 1] /\ Hand(r, 0, kind, v) /\ UNCHANGED <<head, st>>
     ELSE /\ ok' = (ok /\ MallocNoMem(w, P0)) /\ UNCHANGED <<rng, nu, ini, own, mem, fla, head, bm, w, st>>
\* free of any slot the program ever obtained: a correct one only in pools that are not robust
Free(r, s) ==
  /\ st = "on" /\ s < nu[r]
  /\ IF Robust /\ <<r, s>> \notin bm
     THEN st' = "aborted" /\ ok' = (ok /\ MisFree(w, P0, r, s)) /\ UNCHANGED <<rng, nu, ini, own, mem, fla, head, bm, w>>
     ELSE /\ <<r, s>> \in LiveSlots(w, P0)
          /\ LET m1 == IF Poi /\ Variant # "PoisonAfterLink" THEN SetItem(M, r, s, Pois, Variant = "AlwaysPoison") ELSE M
                 m2 == PutLink(m1, r, s, head)
                 m3 == IF Poi /\ Variant = "PoisonAfterLink" THEN SetItem(m2, r, s, Pois, FALSE) ELSE m2
             IN SetM(m3)
          /\ head' = Link(r, s)
          /\ bm' = bm \ {<<r, s>>}
          /\ w' = Own(FreeOk(w, H(r, s)), P0, FreeOwns(w, P0, r, 0))
          /\ ok' = (ok /\ CanFree(w, H(r, s)))
          /\ UNCHANGED <<rng, nu, st>>
\* the program stores to a live item, or (misuse) to a freed one
Store(r, s, c, v) ==
  /\ st = "on" /\ H(r, s) \in Live(w)
  /\ SetM(Put(M, r, c, s, v))
  /\ w' = Own(WriteOk(w, H(r, s), c, Tok(v)), P0, {Pg(r, c)})
  /\ UNCHANGED <<rng, nu, head, bm, ok, st>>
Corrupt(r, s, c, v) ==
  /\ st = "on" /\ Robust /\ H(r, s) \in Freed(w) /\ ~w.items[H(r, s)].bad /\ View(r, c, s) # v /\ v # Pois
  /\ SetM(Put(M, r, c, s, v))
  /\ w' = Own(CorruptOk(w, H(r, s)), P0, {Pg(r, c)})
  /\ UNCHANGED <<rng, nu, head, bm, ok, st>>
\* destroy: robust pools check for leaks, walk the free list, and check the poison of every free item
RECURSIVE Walk(_, _)
Walk(l, n) == IF l < 1000 \/ n > Cap * MaxR THEN n ELSE Walk(GetLink(M, LinkR(l), LinkS(l)), n + 1)
RECURSIVE WalkBad(_, _)
WalkBad(l, n) == l >= 1000 /\ n <= Cap * MaxR /\ (PopBad(LinkR(l), LinkS(l)) \/ WalkBad(GetLink(M, LinkR(l), LinkS(l)), n + 1))
Used == {<<r, s>> \in R \X Slots : s < nu[r]}
Destroy ==
  /\ st = "on"
  /\ IF Robust /\ ((bm # {} /\ Variant # "NoLeakCheck") \/ Walk(head, 0) # Cardinality(Used \ bm) \/ WalkBad(head, 0))
     THEN st' = "aborted" /\ ok' = (ok /\ Leaky(w, P0)) /\ UNCHANGED w
     ELSE st' = "gone" /\ ok' = (ok /\ ~Leaky(w, P0)) /\ w' = DestroyOk(w, P0)
  /\ UNCHANGED <<rng, nu, ini, own, mem, fla, head, bm>>

Items == IF Cardinality(Vals) > 1 THEN {<<a, b>> : a \in Vals, b \in Vals} ELSE {Zero} \cup {<<a, 0>> : a \in Vals}
Next == \/ \E k \in {"p", "z"} : Malloc(k, Zero)
        \/ \E k \in {"i", "h"}, v \in Items : Malloc(k, v)
        \/ \E r \in R, s \in Slots : Free(r, s)
        \/ \E r \in R, s \in Slots, c \in Cpus, v \in Items : Store(r, s, c, v)
        \/ \E r \in R, s \in Slots, c \in Cpus, v \in Items : Corrupt(r, s, c, v)
        \/ Destroy
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* every call's outcome is one the abstract specification allows
Allowed == ok
\* the memory reads as the abstract specification says
Contents == st = "on" => /\ WorldInv(w)
                         /\ \A h \in Live(w) : LET i == w.items[h] IN \A c \in Cpus : Tok(View(i.r, c, i.s)) = i.c[c]
\* freed items read as poison (robust: wholly; otherwise but for the link word)
Poisoned == st = "on" /\ Poi => \A h \in Freed(w) : LET i == w.items[h] IN
              i.bad \/ \A c \in Cpus : View(i.r, c, i.s)[2] = Poison /\ (Robust => View(i.r, c, i.s)[1] = Poison)
\* the free list holds exactly the slots that were used and are not live; the bitmap exactly the live ones
RECURSIVE OnList(_, _)
OnList(l, n) == IF l < 1000 \/ n > Cap * MaxR THEN <<>> ELSE <<<<LinkR(l), LinkS(l)>>>> \o OnList(GetLink(M, LinkR(l), LinkS(l)), n + 1)
FreeList == st = "on" => LET q == OnList(head, 0) IN
              /\ {q[i] : i \in DOMAIN q} = {Slot(w, h) : h \in Freed(w)} /\ Len(q) = Cardinality(Freed(w))
              /\ bm = LiveSlots(w, P0) /\ Used = bm \cup {q[i] : i \in DOMAIN q}
\* a page of a CPU has memory of its own only for a reason
Lazy == st = "on" => \A r \in R, c \in Cpus : own[r][c] => Pg(r, c) \in w.pools[P0].own
=============================================================================
