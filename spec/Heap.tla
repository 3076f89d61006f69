-------------------------------- MODULE Heap --------------------------------
(* Guarantee-level specification of hardened_malloc as seen by its users and  *)
(* by the kernel: the abstract state is what may be concluded from the calls, *)
(* their results and the net effect of the system calls made meanwhile; the   *)
(* hidden random choices never matter.  Every action consumes one event ev,   *)
(* updates the abstract state h and adds to h.bad the identifier of every     *)
(* property whose statement the event contradicts.                            *)
(*                                                                            *)
(* h.cfg    configuration of the running build                                *)
(* h.live   id -> live block                                                  *)
(* h.old    id -> last block of the id that was freed                         *)
(* h.reg    (arena, class) region -> known slabs, their used slots, frees     *)
(* h.maps   page intervals <<a, b>> mapped outside the slab region            *)
(* h.acct   those owned by live blocks, quarantined ranges, allocator state   *)
(* h.quar   quarantined large ranges, oldest first                            *)
(* h.meta   mapping of the allocator state and its accessible pages           *)
(* h.cans   canary values of earlier slab populations                         *)
(* h.op     system calls since the last call returned                         *)
(* h.bad    properties contradicted so far                                    *)
EXTENDS Sizes, FiniteSets, TLC

VARIABLE h

Op0 == [err |-> FALSE, unerr |-> FALSE, fixerr |-> FALSE, rw |-> <<>>, fix |-> <<>>, adv |-> <<>>, hole |-> FALSE, rnd |-> 0, remap |-> FALSE,
        seal |-> FALSE, pend |-> {}, puerr |-> FALSE, started |-> FALSE]
Meta0 == [a |-> 0, b |-> 0, acc |-> {}, lo |-> 0, ro |-> FALSE, slab |-> FALSE, up |-> FALSE, roFail |-> FALSE]
H0 == [cfg |-> <<>>, live |-> <<>>, old |-> <<>>, reg |-> <<>>, maps |-> {}, acct |-> {}, quar |-> <<>>, nq |-> 0, meta |-> Meta0, cans |-> {},
       op |-> Op0, marks |-> <<>>, guards |-> <<>>, firsts |-> <<>>, bad |-> {}, stack |-> <<>>, fault |-> 0, lost |-> {}, arena |-> <<>>, kids |-> {}, sb |-> <<>>, nrnd |-> 0, tags |-> <<>>]
Tag(c, t) == IF c THEN {} ELSE {t}       \* the property t, unless c holds
Tags(c, t) == IF c THEN {} ELSE t
Bad(x, t) == [x EXCEPT !.bad = @ \cup t]
Rm(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
RECURSIVE FoldS(_, _, _)
FoldS(Op(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldS(Op, Op(acc, Head(s)), Tail(s))

(* ------------------------------------------------------------ blocks ----- *)
\* blocks are byte ranges at <<pg, b>> of length us (usp pages when huge) in space s
PgEnd(x) == x.pg + (IF x.usp >= 262144 THEN x.usp ELSE (x.b + x.us + 4095) \div 4096)
Overlap(x, y) ==
    /\ x.s = y.s
    /\ IF x.us = 0 \/ y.us = 0 THEN x.pg = y.pg /\ x.b = y.b
       ELSE IF PgEnd(x) <= y.pg \/ PgEnd(y) <= x.pg THEN FALSE
       ELSE IF x.usp >= 100000 \/ y.usp >= 100000 THEN TRUE
       ELSE LET d == (y.pg - x.pg) * 4096 + y.b - x.b IN IF d >= 0 THEN d < x.us ELSE -d < y.us
LiveAt(x, s, pg, b) == {i \in DOMAIN x.live : x.live[i].s = s /\ x.live[i].pg = pg /\ x.live[i].b = b}
LargeIds(x) == {i \in DOMAIN x.live : x.live[i].k = -1}

(* ------------------------------------------------------------ intervals -- *)
Sub(S, a, b) == UNION {IF i[2] <= a \/ b <= i[1] THEN {i}
                       ELSE (IF i[1] < a THEN {<<i[1], a>>} ELSE {}) \cup (IF b < i[2] THEN {<<b, i[2]>>} ELSE {}) : i \in S}
SubAll(S, R) == UNION {LET Q == {r \in R : r[1] < i[2] /\ i[1] < r[2]}
                       IN IF Q = {} THEN {i} ELSE FoldS(LAMBDA acc, r : Sub(acc, r[1], r[2]), {i}, CHOOSE q \in [1..Cardinality(Q) -> Q] : \A a, b \in 1..Cardinality(Q) : a # b => q[a] # q[b]) : i \in S}
Touches(S, a, b) == \E i \in S : i[1] < b /\ a < i[2]
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN i[2] - i[1] + SumLen(S \ {i})

(* ------------------------------------------------------------ regions ---- *)
Reg0 == [base |-> -1, slabs |-> <<>>, hi |-> -1, nm |-> 0, nd |-> 0, np |-> 0]
Slab0 == [pop |-> TRUE, fresh |-> FALSE, can |-> <<>>, used |-> {}, fr |-> <<>>, dirty |-> {}, pt |-> -1]
Class(x, s) == s % NClasses(x.cfg)
IsGuardSlab(c, i) == i % (c.gint + 1) = c.gint
NextSlab(c, hi) == IF IsGuardSlab(c, hi + 1) THEN hi + 2 ELSE hi + 1
SlabIdx(k, r, pg) == IF pg < r.base THEN -1 ELSE (pg - r.base) \div SlabPages(k)
SlabOff(k, r, pg, b) == ((pg - r.base) % SlabPages(k)) * 4096 + b
RECURSIVE SumNonLive(_, _, _)
SumNonLive(k, r, D) == IF D = {} THEN 0 ELSE LET i == CHOOSE j \in D : TRUE IN SlotsOf(k) - Cardinality(r.slabs[i].used) + SumNonLive(k, r, D \ {i})
Pop(r) == {i \in DOMAIN r.slabs : r.slabs[i].pop}
Purged(r) == {i \in DOMAIN r.slabs : ~r.slabs[i].pop}
GetReg(x, s) == IF s \in DOMAIN x.reg THEN x.reg[s] ELSE Reg0
NoSQ(c) == c.sqr + c.sqq = 0
Exhausted(x, s) == (NextSlab(x.cfg, GetReg(x, s).hi) + 1) * SlabPages(Class(x, s)) > x.cfg.cregp
\* nothing is left of a class: no new slab, no free slot beyond the quarantine, no purged slab beyond the delay array
ClassFull(x, s) == LET k == Class(x, s)  r == GetReg(x, s) IN
    Exhausted(x, s) /\ SumNonLive(k, r, Pop(r)) <= RQ(x.cfg, k) /\ Cardinality(Purged(r)) <= x.cfg.fsq
RECURSIVE TableMax(_, _)
TableMax(n, m) == IF n * 2 <= m THEN TableMax(n * 2, m) ELSE n
TableSize(x) == TableMax(128, x.cfg.cregp \div 24)
TableFull(x) == LET t == TableSize(x) IN (t - Cardinality(LargeIds(x))) * 4 < t

(* ------------------------------------------ net effect of system calls --- *)
\* slab pages [pg, pg+n) of region s became accessible
Populate(x, e) ==
    LET s == e[1]  pg == e[2]  n == e[3]  k == Class(x, s)  sp == SlabPages(k)  r0 == GetReg(x, s)
        r == IF r0.base = -1 THEN [r0 EXCEPT !.base = pg] ELSE r0
        i0 == SlabIdx(k, r, pg)  i1 == SlabIdx(k, r, pg + n - 1)
        fresh == {i \in i0..i1 : i \notin Pop(r)}
        sl == [i \in fresh |-> [Slab0 EXCEPT !.fresh = TRUE, !.pt = IF i \in DOMAIN r.slabs THEN r.slabs[i].pt ELSE -1]]
    IN Bad([x EXCEPT !.reg = (s :> [r EXCEPT !.slabs = sl @@ r.slabs]) @@ @],
           Tag(k # 0, "C13")                                               \* zero-size pages are never accessible
           \cup Tag(i0 >= 0 /\ \A i \in i0..i1 : ~IsGuardSlab(x.cfg, i), "C13")   \* guard slabs neither
           \cup Tag(i0 >= 0 /\ (i1 + 1) * sp <= x.cfg.cregp, "C15")        \* within the class region
           \cup Tag(r0.base # -1 \/ (pg >= 1 /\ pg + x.cfg.cregp <= 2 * x.cfg.cregp), "C15")
           \cup Tag(i0 >= 0 /\ (pg - r.base) % sp = 0 /\ n = sp, "C13"))   \* exactly one slab
\* slab pages became inaccessible and empty
Protect(x, e) ==
    LET s == e[1]  pg == e[2]  n == e[3]  k == Class(x, s)  sp == SlabPages(k)  r == GetReg(x, s)
        i0 == SlabIdx(k, r, pg)  i1 == SlabIdx(k, r, pg + n - 1)
        hit == {i \in i0..i1 : i \in Pop(r)}
    IN IF r.base = -1 \/ i0 < 0 THEN x
       ELSE Bad([x EXCEPT !.reg = (s :> [r EXCEPT !.slabs = [i \in hit |-> [Slab0 EXCEPT !.pop = FALSE, !.pt = r.np]] @@ r.slabs, !.np = @ + Cardinality(hit)]) @@ @],
                Tags(\A i \in hit : r.slabs[i].used = {}, {"C14", "C01"}) \cup Tag((pg - r.base) % sp = 0 /\ n % sp = 0, "C14"))
\* slab pages were emptied but stay accessible
Discard(x, e) ==
    LET s == e[1]  pg == e[2]  n == e[3]  k == Class(x, s)  r == GetReg(x, s)
        i0 == SlabIdx(k, r, pg)  i1 == SlabIdx(k, r, pg + n - 1)
        In(i, j) == LET o == i * SlabPages(k) * 4096 + j * SlotSize(k) IN o >= (pg - r.base) * 4096 /\ o + SlotSize(k) <= (pg - r.base + n) * 4096
        Hits(i, j) == LET o == i * SlabPages(k) * 4096 + j * SlotSize(k) IN o < (pg - r.base + n) * 4096 /\ o + SlotSize(k) > (pg - r.base) * 4096
        hit == {i \in i0..i1 : i \in Pop(r)}
    IN IF r.base = -1 \/ i0 < 0 \/ i1 * SlabPages(k) > 200000 THEN x
       ELSE Bad([x EXCEPT !.reg = (s :> [r EXCEPT !.slabs = [i \in hit |-> [r.slabs[i] EXCEPT !.dirty = {d \in @ : ~In(i, d)}]] @@ r.slabs]) @@ @],
                Tags(\A i \in hit : \A j \in r.slabs[i].used : ~Hits(i, j), {"C14", "C01"}))

OpenSlabs(x) == FoldS(Populate, x, x.op.rw)
CloseSlabs(x) == FoldS(Protect, FoldS(Discard, x, x.op.adv), x.op.fix)

SysSlab(x, ev) ==
    LET e == << ev.s, ev.pg, ev.n >> IN
    CASE ev.c = "rw" -> [x EXCEPT !.op.rw = Append(@, e)]
      [] ev.c \in {"fix", "fixhole", "none"} -> [x EXCEPT !.op.fix = Append(@, e)]
      [] ev.c = "purge" -> [x EXCEPT !.op.adv = Append(@, e)]
      [] ev.c = "map" /\ ~x.meta.slab -> [x EXCEPT !.meta.slab = TRUE]     \* the reservation, inaccessible and in one piece
      [] ev.c = "advise" -> x
      [] OTHER -> Bad(x, {"C15"})
\* a table area of the allocator state is accessible
TabMax(x) == CeilDiv((x.cfg.cregp \div 24) * 24, 4096)
TabA(x) == x.meta.lo
TabB(x) == x.meta.lo + TabMax(x)
\* the pages a table needs that is made accessible now: at most three quarters full, calls under way included (and half as much again)
RECURSIVE TableFor(_, _)
TableFor(t, n) == IF 4 * n <= 3 * t THEN t ELSE TableFor(2 * t, n)
TabNeed(x) == (3 * CeilDiv(TableFor(128, Cardinality(LargeIds(x)) + 4) * 24, 4096)) \div 2 + 1
InMeta(x, ev) == x.meta.up /\ ev.pg >= x.meta.a /\ ev.pg + ev.n <= x.meta.b
SysWin(x, ev) ==
    LET a == ev.pg  b == ev.pg + ev.n IN
    CASE ev.c \in {"map", "maprw"} -> Bad([x EXCEPT !.maps = @ \cup {<<a, b>>}], Tag(~Touches(x.maps, a, b), "C11"))
      [] ev.c \in {"unmap", "rmfrom"} -> Bad([x EXCEPT !.maps = Sub(@, a, b), !.lost = Sub(@, a, b), !.op.remap = @ \/ ev.c = "rmfrom"],
                                             Tag(~x.meta.up \/ ~(a < x.meta.b /\ x.meta.a < b), "C16"))
      [] ev.c = "unmaphole" -> Bad([x EXCEPT !.maps = Sub(@, a, b)], IF x.fault = 0 THEN {"C11"} ELSE {"C11", "C19"})
      [] ev.c = "fixhole" -> Bad(x, {"C11", "C01"})
      [] ev.c = "rmto" -> IF \E i \in x.maps : i[1] <= a /\ b <= i[2] THEN x ELSE [x EXCEPT !.maps = Sub(@, a, b) \cup {<<a, b>>}]
      [] ev.c = "rw" -> IF InMeta(x, ev)
                        THEN Bad([x EXCEPT !.meta.acc = Sub(@, a, b) \cup {<<a, b>>}], Tag(a > x.meta.a /\ b < x.meta.b /\ (a < TabA(x) \/ a >= TabA(x) + 2 * TabMax(x) \/ ev.n <= TabNeed(x)), "C16"))
                        ELSE x
      [] ev.c \in {"fix", "none"} -> IF InMeta(x, ev) THEN [x EXCEPT !.meta.acc = Sub(@, a, b)] ELSE x
      [] OTHER -> x
\* op.pend: ranges that should have been replaced by inaccessible pages; when that fails their contents must be discarded
DoSys(x0, ev) ==
    LET r == << ev.s, ev.pg, ev.n >>
        x == IF ev.c = "fix" /\ ev.err # 0 THEN [x0 EXCEPT !.op.pend = @ \cup {r}] ELSE IF ev.c = "purge" THEN [x0 EXCEPT !.op.pend = @ \ {r}, !.op.puerr = @ \/ ev.err # 0] ELSE x0 IN
    IF ev.err # 0 THEN [x EXCEPT !.op.err = TRUE, !.lost = IF ev.c = "unmap" /\ ev.s = -1 THEN Sub(@, ev.pg, ev.pg + ev.n) \cup {<<ev.pg, ev.pg + ev.n>>} ELSE @, !.op.unerr = @ \/ ev.c = "unmap", !.op.fixerr = @ \/ ev.c \in {"fix", "fixrw"}]
    ELSE IF ev.s >= 0 THEN SysSlab(x, ev)
    ELSE IF ev.s = -1 THEN SysWin(x, ev)
    ELSE IF ev.c = "ro" THEN [x EXCEPT !.meta.ro = TRUE]
    ELSE Bad(x, Tag(~(x.meta.ro /\ ev.c \in {"rw", "fixrw"} /\ x.meta.up), "C16"))

(* ------------------------------------------------------------ the end of a call *)
CachedEmpty(x, s) == LET r == x.reg[s] IN {i \in Pop(r) : r.slabs[i].used = {}}
TouchedRegs(x) == {x.op.rw[i][1] : i \in DOMAIN x.op.rw} \cup {x.op.fix[i][1] : i \in DOMAIN x.op.fix}
EndOp(x) == [x EXCEPT !.op = [Op0 EXCEPT !.started = TRUE], !.acct = x.maps,
                      !.bad = @ \cup Tag(~x.meta.up \/ x.op.err \/ x.fault # 0 \/ ~(Touches(x.meta.acc, TabA(x), TabA(x) + 1) /\ Touches(x.meta.acc, TabB(x), TabB(x) + 1)) \/ x.meta.roFail, "C16")]
SealOk(ev) == Tag(ev.seal # 0, "C24")
\* the first call has set everything up: one reservation, one state mapping, read-only globals
Inited(x) == x.meta.up /\ x.meta.slab /\ x.meta.ro /\ (Touches(x.meta.acc, TabA(x), TabA(x) + 1) \/ Touches(x.meta.acc, TabB(x), TabB(x) + 1))

(* ------------------------------------------------------------ memory tags  *)
(* With memory tagging every pointer to a small block carries a tag from      *)
(* 1..15 (ev.tg) and its whole slot is tagged with it (ev.mt); the tag        *)
(* differs from the last tag of the slot and from the last or current tags of *)
(* its neighbours in the slab.  A released slot is tagged 0 (ev.mo).  ev.zt   *)
(* lists the tagging operations made, ev.mf counts accesses through pointers  *)
(* whose tag is not that of the memory.                                       *)
TagOf(x, t) == IF t \in DOMAIN x.tags THEN x.tags[t] ELSE 0
SlotAt(x, s, pg, b) == LET k == Class(x, s)  r == GetReg(x, s)  i == SlabIdx(k, r, pg) IN << s, i, SlabOff(k, r, pg, b) \div SlotSize(k) >>
\* a tagging operation that stays within the slot at (s, pg, b)
TagsWithin(z, s, pg, b, k) == /\ z[1] = s /\ z[2] - pg \in -64..64
                              /\ (z[2] - pg) * 4096 + z[3] - b >= 0 /\ (z[2] - pg) * 4096 + z[3] - b + z[4] <= SlotSize(k)
ZtIn(ev, P) == \A j \in DOMAIN ev.zt : \E q \in P : TagsWithin(ev.zt[j], q[1], q[2], q[3], q[4])
TagNew(x, ev) ==
    IF x.cfg.mte = 0 THEN x
    ELSE IF ev.s < 0 \/ Class(x, ev.s) = 0 THEN Bad(x, Tag(ev.tg = 0 /\ ev.mf = 0, "C29"))
    ELSE LET t == SlotAt(x, ev.s, ev.pg, ev.b) IN
         Bad([x EXCEPT !.tags = (t :> ev.tg) @@ @],
             Tag(/\ ev.tg \in 1..15 /\ ev.mt = ev.tg /\ ev.mf = 0
                 /\ ev.tg \notin {TagOf(x, t), TagOf(x, << t[1], t[2], t[3] - 1 >>), TagOf(x, << t[1], t[2], t[3] + 1 >>)}, "C29"))
TagOld(x, ev, blk) == IF x.cfg.mte = 0 THEN x ELSE Bad(x, Tag(ev.mf = 0 /\ (blk.s < 0 \/ blk.us = 0 \/ ev.mo = 0), "C29"))
Spot(blk) == << blk.s, blk.pg, blk.b, blk.k >>
TagKeep(x, ev, blk) == IF x.cfg.mte = 0 \/ blk.s < 0 \/ blk.us = 0 THEN x ELSE
    LET t == TagOf(x, SlotAt(x, blk.s, blk.pg, blk.b)) IN Bad(x, Tag(ev.mf = 0 /\ ev.mt = t /\ ev.zt = <<>> /\ (ev.e = "au" \/ ev.tg = t), "C29"))
ZtOnly(x, ev, P) == Tag(x.cfg.mte = 0 \/ ZtIn(ev, P), "C29")

(* ------------------------------------------------------------ allocation - *)
\* shared by every call that returns a new block; ev carries the block, e its entitlement
NewSmall(x, ev, e) ==
    LET s == ev.s  k == Class(x, s)  a == s \div NClasses(x.cfg)
        r0 == GetReg(x, s)
        r1 == IF r0.base = -1 THEN [r0 EXCEPT !.base = ev.pg] ELSE r0
        i == SlabIdx(k, r1, ev.pg)  o == SlabOff(k, r1, ev.pg, ev.b)  slot == o \div SlotSize(k)
        isOpened == i \in Pop(r1) /\ r1.slabs[i].fresh
        wasKnown == i \in DOMAIN r1.slabs
        \* zero-size slabs are never populated by a system call: opened by their first allocation
        opens0 == k = 0 /\ i \notin Pop(r1)
        opens == isOpened \/ opens0
        recycled == opens /\ r1.slabs # <<>> /\ wasKnown /\ r1.slabs[i].pt >= 0
        brandnew == opens /\ ~recycled
        sl0 == IF i \in Pop(r1) THEN r1.slabs[i] ELSE [Slab0 EXCEPT !.pt = IF wasKnown THEN r1.slabs[i].pt ELSE -1]
        others == Pop(r1) \ {i}
        withheld == SumNonLive(k, r1, others)
        n == IF slot \in DOMAIN sl0.fr THEN sl0.fr[slot] ELSE -1
        can == << ev.h1, ev.h2 >>
        sl == [sl0 EXCEPT !.fresh = FALSE, !.used = @ \cup {slot}, !.fr = Rm(@, slot), !.dirty = @ \ {slot},
                          !.can = IF x.cfg.canary = 1 /\ k # 0 THEN can ELSE <<0, 0>>]
        r == [r1 EXCEPT !.slabs = (i :> sl) @@ @, !.hi = Max2(@, i), !.nm = @ + 1]
        \* slots that nobody owns and that cannot be in the quarantine, in the other populated slabs
        released(j) == {q \in 0..(SlotsOf(k) - 1) \ r1.slabs[j].used : q \in DOMAIN r1.slabs[j].fr /\ r1.nd - r1.slabs[j].fr[q] >= QQueue(x.cfg, k)}
        b == Tag(k = e.k /\ a < x.cfg.narena /\ (ev.t \in DOMAIN x.arena => x.arena[ev.t] = a), "C15")
             \cup Tag(ev.t \in DOMAIN x.arena => x.arena[ev.t] = a, "C27")
             \cup Tag(i >= 0 /\ o % SlotSize(k) = 0 /\ slot < SlotsOf(k), "C02")
             \cup Tag(i >= 0 /\ ~IsGuardSlab(x.cfg, i), "C13")
             \cup Tag(i >= 0 /\ (i + 1) * SlabPages(k) <= x.cfg.cregp, "C15")
             \cup Tag(opens \/ i \in Pop(r1), "C14")
             \cup Tag(slot \notin sl0.used, "C01")
             \cup Tag(k = 0 \/ ev.acc = 2, "C02") \cup Tag(k # 0 \/ ev.acc <= 0, "C13")
             \* the quarantine delays reuse
             \cup Tag(n < 0 \/ NoSQ(x.cfg) \/ r1.nd - n >= MinDelay(x.cfg, k), "C10")
             \* a slab is opened only when no partly used slab is left; at most the quarantine is withheld
             \cup Tag(~opens \/ withheld <= RQ(x.cfg, k), "C23")
             \cup Tag(~opens \/ withheld <= RQ(x.cfg, k) \/ NoSQ(x.cfg), "C10")
             \cup Tag(opens \/ ~NoSQ(x.cfg) \/ sl0.used # {} \/ \A j \in others : r1.slabs[j].used = {} \/ Cardinality(r1.slabs[j].used) = SlotsOf(k), "C23")
             \* once its random array must have filled up, exactly the quarantine is withheld
             \cup Tag(~opens \/ NoSQ(x.cfg) \/ r1.nd < QQueue(x.cfg, k) + 25 * QRand(x.cfg, k) + 25 \/ withheld = RQ(x.cfg, k), "C10")
             \* and before that nearly so: after R frees an entry of a long random array is still empty with probability exp(-1)
             \cup Tag(~opens \/ QRand(x.cfg, k) < 512 \/ r1.nd < QQueue(x.cfg, k) + QRand(x.cfg, k)
                      \/ withheld >= RQ(x.cfg, k) - (IF r1.nd < QQueue(x.cfg, k) + 4 * QRand(x.cfg, k) THEN (QRand(x.cfg, k) * 15) \div 32 ELSE QRand(x.cfg, k) \div 8), "C10")
             \* without a random stage the quarantine is exactly the last frees
             \cup Tag(~opens \/ x.cfg.sqr > 0 \/ NoSQ(x.cfg) \/ \A j \in others : released(j) = {}, "C10")
             \* lowest free slot without randomisation
             \cup Tag(x.cfg.rand = 1 \/ ~NoSQ(x.cfg) \/ \A q \in 0..(slot - 1) : q \in sl0.used, "C23")
             \* purged slabs come back before new ones are made, oldest first, after the delay array
             \cup Tag(~brandnew \/ (i = NextSlab(x.cfg, r1.hi) /\ Cardinality(Purged(r1)) <= x.cfg.fsq), "C14")
             \cup Tag(~recycled \/ x.op.err \/ r1.np < 25 * x.cfg.fsq + 25 \/ Cardinality(Purged(r1) \ {i}) >= x.cfg.fsq, "C14")
             \cup Tag(~recycled \/ x.cfg.fsq = 0 \/ r1.np - sl0.pt >= 2, "C14")
             \cup Tag(~recycled \/ x.cfg.fsq > 1 \/ \A j \in Purged(r1) \ {i} : r1.slabs[j].pt > sl0.pt, "C14")
             \* canaries
             \cup Tag(x.cfg.canary = 0 \/ k = 0 \/ (ev.c0 = 0 /\ (sl0.can = <<>> \/ sl0.can = can)), "C08")
             \cup Tag(x.cfg.canary = 0 \/ k = 0 \/ sl0.can # <<>> \/ can \notin x.cans, "C08")
             \* former contents
             \cup Tag(slot \notin sl0.dirty \/ x.cfg.waf = 0, "C09")
    IN Bad([x EXCEPT !.reg = (s :> r) @@ @, !.cans = IF sl0.can = <<>> /\ x.cfg.canary = 1 /\ k # 0 THEN @ \cup {can} ELSE @,
                     !.firsts = IF sl0.used = {} /\ NoSQ(x.cfg) THEN (s :> (IF s \in DOMAIN @ THEN @[s] \cup {slot} ELSE {slot})) @@ @ ELSE @,
                     !.arena = IF ev.t \in DOMAIN @ THEN @ ELSE (ev.t :> a) @@ @,
                     !.marks = IF s \in DOMAIN @ THEN [@ EXCEPT ![s] = IF Len(@) < 12 THEN Append(@, IF opens /\ x.cfg.canary = 1 /\ k # 0 THEN << slot, can >> ELSE << slot >>) ELSE @] ELSE @], b)
NewLarge(x, ev, e) ==
    LET new == (x.maps \ x.acct) \ x.lost
        ext == << ev.pg - ev.gl, ev.pg + ev.usp + ev.gr >>
        bound == 1 + ev.usp \div x.cfg.gdiv
        b == Tag(ev.s = -1, "C15") \cup Tag(ev.acc = 2, "C02") \cup Tag(ev.b = 0, "C02")
             \cup Tag(ev.gl >= 1 /\ ev.gr >= 1, "C12")
             \cup Tag(ev.gl <= bound /\ ev.gr <= bound, "C12")
             \cup Tag(new = {ext}, "C11")
             \cup Tag(~Touches({<<x.meta.a, x.meta.b>>}, ext[1], ext[2]), "C16")
    IN Bad([x EXCEPT !.guards = IF ev.usp > 4096 THEN @ ELSE (ev.usp :> (IF ev.usp \in DOMAIN @ THEN @[ev.usp] \cup {ev.gl} ELSE {ev.gl})) @@ @,
                     !.marks = IF -1 \in DOMAIN @ /\ ev.usp \div x.cfg.gdiv >= 64 THEN [@ EXCEPT ![-1] = IF Len(@) < 12 THEN Append(@, << ev.gl >>) ELSE @] ELSE @], b)
Block(x, ev, e) == [s |-> ev.s, pg |-> ev.pg, b |-> ev.b, us |-> ev.us, usp |-> ev.usp, k |-> e.k, can |-> << ev.c0, ev.h1, ev.h2 >>,
                    corrupt |-> FALSE, a |-> ev.pg - ev.gl, z |-> ev.pg + ev.usp + ev.gr, gr |-> ev.gr, shrunk |-> FALSE, alz |-> FALSE]
\* checks common to all new blocks
NewCommon(x, ev, e, blk, but) ==
    Tags(\A i \in DOMAIN x.live \ but : ~Overlap(x.live[i], blk), {"C01"})
    \cup Tag(ev.tz >= Max2(4, ev.al), "C02")
    \cup Tags(IF e.us >= 0 THEN ev.us = e.us ELSE ev.usp = e.usp, {"C02", "C20"})
    \cup Tag((ev.s >= 0) = e.small, "C15")
New(x, ev, e, but) ==
    LET blk == Block(x, ev, e)  y == IF e.small /\ ev.s >= 0 THEN NewSmall(x, ev, e) ELSE IF ev.s = -1 THEN NewLarge(x, ev, e) ELSE x
    IN Bad([y EXCEPT !.live = (ev.id :> blk) @@ Rm(@, ev.id)], NewCommon(x, ev, e, blk, but))
\* may the request fail?
MayFail(x, ev, e) ==
    \/ ev.imp = 1 \/ ev.bal = 1 \/ x.op.err
    \/ e.small /\ \E a \in 0..(x.cfg.narena - 1) : (ev.t \in DOMAIN x.arena => a = x.arena[ev.t]) /\ ClassFull(x, a * NClasses(x.cfg) + e.k)
    \/ ~e.small /\ TableFull(x)
MustFail(ev) == ev.imp = 1 \/ ev.bal = 1
ErrnoOk(ev) == IF ev.k = "posix_memalign" THEN ev.ret = (IF ev.bal = 1 THEN 22 ELSE 12) ELSE ev.er = (IF ev.bal = 1 THEN 22 ELSE 12)
\* nothing of the large space may change when a call fails
Unchanged(x) == x.maps = x.acct \/ x.op.unerr
DoAlloc(x0, ev) ==
    LET x == OpenSlabs(x0)
        e == Entitled(x.cfg, ev.rq, ev.rqp, ev.al)
        y == IF ev.ok = 1 THEN TagNew(New(x, ev, e, {}), ev) ELSE x
        b == IF ev.ok = 1
             THEN Tags(~MustFail(ev), {"C03"})
                  \cup Tag(x.cfg.zero = 0 \/ ev.z = -1, "C04")
                  \cup Tag(ev.k # "calloc" \/ ev.z = -1 \/ ev.z >= ev.rq, "C04")
                  \cup Tag(ev.z # -2, "C02")
             ELSE Tags(MayFail(x, ev, e), {"C02", "C03"} \cup (IF x.fault # 0 THEN {"C19"} ELSE {}))
                  \cup Tags(ErrnoOk(ev), {"C03"} \cup (IF x.op.err THEN {"C19"} ELSE {}))
                  \cup Tags(Unchanged(x), {"C03", "C11"} \cup (IF x.op.err THEN {"C19"} ELSE {}))
        early == Tag(ev.ok = 0 \/ Inited(x), "C27") \cup Tags(~e.small \/ ev.ok = 0 \/ Unchanged(x), {"C27", "C15"})
            zt == ZtOnly(x, ev, IF ev.ok = 1 /\ ev.s >= 0 THEN {<< ev.s, ev.pg, ev.b, Class(x, ev.s) >>} ELSE {})
    IN EndOp(CloseSlabs(Bad(y, b \cup SealOk(ev) \cup early \cup zt)))

(* ------------------------------------------------------------ release ---- *)
FreeSmall(x, blk, oz) ==
    LET s == blk.s  k == Class(x, s)  r == GetReg(x, s)  i == SlabIdx(k, r, blk.pg)
        slot == SlabOff(k, r, blk.pg, blk.b) \div SlotSize(k)
    IN IF i \notin DOMAIN r.slabs THEN x ELSE
       Bad([x EXCEPT !.reg = (s :> [r EXCEPT !.slabs[i] = [@ EXCEPT !.used = @ \ {slot}, !.fr = (slot :> r.nd + 1) @@ Rm(@, slot)], !.nd = @ + 1]) @@ @],
           Tag(~blk.corrupt, "C08") \cup Tag(x.cfg.zero = 0 \/ oz < 0, "C04"))
\* a large range [a, b) is given up; quarantined if small enough
Retire(x, a, b, usp) ==
    LET gone == x.acct \ x.maps
        skip == usp >= x.cfg.thrp \/ x.cfg.rqr + x.cfg.rqq = 0
        q == [a |-> a, b |-> b, n |-> x.nq + 1]
        qs == IF skip THEN x.quar ELSE Append(x.quar, q)
        \* ranges whose unmapping failed stay reserved for ever
        out == gone \cup x.lost
        evicted == {j \in DOMAIN qs : << qs[j].a, qs[j].b >> \in out}
        rest == SelectSeq(qs, LAMBDA e : << e.a, e.b >> \notin out)
        nq == IF skip THEN x.nq ELSE x.nq + 1
        ok == IF skip /\ x.op.unerr THEN gone \subseteq {<< a, b >>} ELSE
              IF skip THEN gone = {<< a, b >>} /\ Cardinality(evicted) = 0
                 ELSE /\ gone \subseteq {<< qs[j].a, qs[j].b >> : j \in evicted}
                      /\ Cardinality(gone) <= 1
                      /\ \A j \in evicted : nq - qs[j].n >= x.cfg.rqq + (IF x.cfg.rqr > 0 THEN 1 ELSE 0)
                      /\ Len(rest) <= x.cfg.rqr + x.cfg.rqq
                      /\ nq < x.cfg.rqq + 25 * x.cfg.rqr + 25 \/ x.fault # 0 \/ Len(rest) = x.cfg.rqr + x.cfg.rqq
                      /\ x.cfg.rqr > 0 \/ (Len(rest) = Min2(Len(qs), x.cfg.rqq) /\ evicted \subseteq {1})
    IN Bad([x EXCEPT !.quar = rest, !.nq = nq],
           Tags(ok, {"C11"}) \cup Tags(x.maps \ x.acct = {} \/ x.op.unerr, {"C11"}))
\* inaccessible now; emptied if a failure left it accessible
Gone(x, ax, oz) == Tag(ax <= 0 \/ (x.op.err /\ (oz < 0 \/ x.op.puerr)), "C11")
FreeLarge(x, blk, ax, oz) == Bad(Retire(x, blk.a, blk.z, blk.usp), Gone(x, ax, oz))
Drop(x, id) == [x EXCEPT !.live = Rm(@, id), !.old = (id :> x.live[id]) @@ @]
\* bounds of the cache of empty slabs, exact without a slab quarantine
Empties(x, s) == LET r == GetReg(x, s) IN Cardinality({i \in Pop(r) : r.slabs[i].used = {}})
\* with one, up to as many more slabs are populated as blocks are withheld
Withheld(x, s) == IF NoSQ(x.cfg) THEN 0 ELSE RQ(x.cfg, Class(x, s))
CacheOk(x, s) == (Empties(x, s) - Withheld(x, s)) * SlabPages(Class(x, s)) * 4096 <= EmptyLimit(x.cfg)
DoFree(x0, ev) ==
    LET x == OpenSlabs(x0)  blk == x.live[ev.id]
        y == IF blk.s >= 0 THEN FreeSmall(x, blk, ev.oz) ELSE FreeLarge(x, blk, ev.ax, ev.oz)
        z == CloseSlabs(Drop(TagOld(y, ev, blk), ev.id))
    IN EndOp(Bad(z, ZtOnly(x, ev, IF blk.s >= 0 THEN {Spot(blk)} ELSE {}) \cup Tag(ev.k = "sized" \/ ev.er = 77, "C28") \cup SealOk(ev)
                    \cup Tag(blk.s < 0 \/ x.op.err \/ CacheOk(z, blk.s) \/ (x.fault # 0 /\ Empties(z, blk.s) <= Empties(x, blk.s)), "C14")
                    \cup Tag(x.op.pend = {}, IF blk.s < 0 THEN "C11" ELSE "C14")
                    \cup Tag(blk.s < 0 \/ z.maps = z.acct, "C11")))

(* The release of a large block in two steps: its entry goes, then its range.  *)
DoUnlink(x, ev) == EndOp([Drop(x, ev.id) EXCEPT !.bad = @ \cup SealOk(ev)])
DoRetire(x, ev) == EndOp(Bad(CloseSlabs(FreeLarge(x, x.old[ev.id], ev.ax, ev.oz)), Tag(ev.e # "fr" \/ ev.k = "sized" \/ ev.er = 77, "C28")))
(* ------------------------------------------------------------ realloc ---- *)
DoRealloc(x0, ev) ==
    LET x == OpenSlabs(x0)
        blk == x.live[ev.id]
        e == Entitled(x.cfg, ev.rq, ev.rqp, 0)
        wasSmall == blk.s >= 0
        fail == Tags(MayFail(x, ev, e), {"C05", "C03"} \cup (IF x.fault # 0 THEN {"C19"} ELSE {})) \cup Tags(ev.er = 12, {"C03"} \cup (IF x.op.err THEN {"C19"} ELSE {}))
                \cup Tags(Unchanged(x), {"C03", "C05", "C11"} \cup (IF x.op.err THEN {"C19"} ELSE {}))
        \* kept in place: same class, the same size, or a shrunk large block
        keptOk == ev.s = blk.s /\ ev.pg = blk.pg /\ ev.b = blk.b
        shrinks == ~wasSmall /\ ev.usp < blk.usp
        cut == ev.pg + ev.usp + blk.gr
        keep0 == [x EXCEPT !.live[ev.id] = [@ EXCEPT !.us = ev.us, !.usp = ev.usp, !.z = IF shrinks THEN cut ELSE @, !.shrunk = @ \/ shrinks]]
        \* the cut-off end is a range of its own
        keep1 == IF shrinks
                 THEN LET E == << blk.a, blk.z >>
                          split(S) == IF E \in S THEN (S \ {E}) \cup {<< blk.a, cut >>, << cut, blk.z >>} ELSE S
                      IN Retire([keep0 EXCEPT !.maps = split(@), !.acct = split(@)], cut, blk.z, blk.usp - ev.usp)
                 ELSE keep0
        keepBad == Tag(keptOk, "C05") \cup Tag(~wasSmall \/ ev.us = e.us, "C05")
                   \cup Tag(wasSmall \/ (IF e.small THEN ev.us >= e.us ELSE IF e.us >= 0 THEN ev.us = e.us ELSE ev.usp = e.usp), "C05")
                   \cup Tags(ev.pre = ev.want, {"C05"})
                   \cup (IF shrinks THEN Gone(x, ev.ax, ev.oz) ELSE {})
                   \cup Tag(wasSmall \/ (ev.gl >= 1 /\ ev.gr >= 1), "C12")
                   \cup Tag(ev.acc = 2 \/ ev.us = 0, "C05")
        \* moved: a new block, then the old one is released
        y0 == New(IF ~wasSmall THEN [x EXCEPT !.acct = x.acct] ELSE x, ev, e, {})
        \* in the large space both steps are visible at once
        newExt == << ev.pg - ev.gl, ev.pg + ev.usp + ev.gr >>
        moved == LET large == ev.s = -1
                     \* the new range is judged against the state before the old one went
                     x1 == IF large THEN [x EXCEPT !.maps = x.acct \cup (x.maps \ x.acct)] ELSE x
                     n1 == New(x1, ev, e, {})
                     n2 == [n1 EXCEPT !.maps = x.maps, !.acct = IF large THEN @ \cup {newExt} ELSE @]
                     f == IF wasSmall THEN FreeSmall(n2, blk, ev.oz)
                          ELSE IF x.op.remap THEN Bad(n2, Tag(n2.maps = n2.acct \ {<< blk.a, blk.z >>} \/ x.op.unerr, "C11") \cup Tag(ev.ax <= 0, "C11"))
                          ELSE FreeLarge(n2, blk, ev.ax, ev.oz)
                 IN Bad([f EXCEPT !.old = (ev.id :> blk) @@ @],
                        Tags(ev.pre = ev.want, {"C05"}) \cup Tags(ev.z2 = -1 \/ x.cfg.zero = 0, {"C05", "C04"}))
            zt == IF ev.ok = 0 \/ ev.mv = 0 THEN {} ELSE (IF wasSmall THEN {Spot(blk)} ELSE {}) \cup (IF ev.s >= 0 THEN {<< ev.s, ev.pg, ev.b, Class(x, ev.s) >>} ELSE {})
    IN EndOp(CloseSlabs(Bad(IF ev.ok = 0 THEN x ELSE IF ev.mv = 0 THEN TagKeep(keep1, ev, blk) ELSE TagNew(TagOld(moved, ev, blk), ev), ZtOnly(x, ev, zt) \cup
           (IF ev.ok = 0 THEN fail ELSE IF ev.mv = 0 THEN keepBad ELSE {}) \cup Tag(ev.ok = 0 \/ x.op.pend = {}, IF blk.s < 0 THEN "C11" ELSE "C14") \cup SealOk(ev) \cup Tag(ev.ok = 0 \/ ev.imp = 0, "C03"))))

(* ------------------------------------------------------------ inspection - *)
DoAudit(x, ev) ==
    LET blk == x.live[ev.id] IN
    EndOp(Bad(TagKeep(x, ev, blk), Tags(ev.bad = -1 /\ (blk.us = 0 \/ ev.acc = 2), {"C01"} \cup (IF x.fault # 0 THEN {"C19"} ELSE {}))
           \cup Tag(ev.qus = blk.us, "C20") \cup Tag(blk.us # 0 \/ blk.k # 0 \/ ev.acc <= 0, "C13")
           \cup Tag(blk.s >= 0 \/ (ev.gl >= 1 /\ ev.gr >= 1), "C12")
           \cup Tag(blk.s < 0 \/ x.cfg.canary = 0 \/ blk.us = 0 \/ blk.corrupt \/ << ev.c0, ev.h1, ev.h2 >> = blk.can, "C08")
           \cup SealOk(ev)))
\* sizes of 2^30 and more are reported as -2 and count as 2^30 - 1
Huge == 1073741823
SameSize(v, us) == v = us \/ (v = -2 /\ us = Huge)
DoUsable(x, ev) == EndOp(Bad(x, Tag(SameSize(ev.v, x.live[ev.id].us), "C20") \cup SealOk(ev)))
ObjSize(x, blk, off) == IF blk.s >= 0 THEN blk.us - off ELSE IF off = 0 THEN blk.us ELSE -1
DoObject(x, ev) ==
    LET blk == x.live[ev.id]  fastOk(v) == IF blk.s >= 0 THEN v >= blk.us - ev.off /\ v <= blk.us ELSE IF v < 0 THEN TRUE ELSE v >= blk.us - ev.off
    IN EndOp(Bad(x, Tag((blk.s >= 0 /\ ev.off > blk.us) \/ SameSize(ev.v, ObjSize(x, blk, ev.off)) \/ (blk.us = Huge /\ ev.v = -2 /\ (blk.s >= 0 \/ ev.off = 0)), "C20") \cup Tag(fastOk(ev.vf), "C20")
                 \cup SealOk(ev)))
DoForeign(x, ev) == EndOp(Bad(x, Tag(IF ev.null = 1 THEN ev.v = 0 /\ ev.vf = 0 ELSE ev.s >= 0 \/ (ev.v = -1 /\ ev.vf \in {-1, 0}), "C20") \cup SealOk(ev)))
DoNull(x, ev) == EndOp(Bad(x, Tag(ev.v = 0 /\ ev.er = 77, "C28") \cup SealOk(ev)))
DoTrim(x0, ev) ==
    LET x == OpenSlabs(x0)  y == CloseSlabs(x)
        any == \E s \in DOMAIN y.reg : y.reg[s].np > GetReg(x, s).np
    IN EndOp(Bad(y, Tag(ev.ret = 2 \/ (ev.ret \in {0, 1} /\ (ev.ret = 1) = any), "C14") \cup SealOk(ev)
        \cup Tag(x.op.err \/ \A s \in DOMAIN y.reg : Class(x, s) = 0 \/ Empties(y, s) <= Withheld(y, s), "C14")
        \cup Tag(x.maps = x.acct, "C14")))
\* the tester overwrote memory (v = 1: with zero bytes, otherwise every byte changed)
DoWrite(x, ev) ==
    IF ev.done = 0 THEN x
    ELSE IF ev.st = 1
    THEN LET blk == x.live[ev.id]  lo == ev.off  hi == ev.off + ev.n
             touches == blk.s >= 0 /\ x.cfg.canary = 1 /\ blk.k # 0 /\ hi > blk.us /\ lo < blk.us + 8
         IN IF touches /\ ~(ev.v = 1 /\ hi <= blk.us + 1) THEN [x EXCEPT !.live[ev.id].corrupt = TRUE] ELSE x
    ELSE LET blk == x.old[ev.id]  s == blk.s  k == Class(x, s)  r == GetReg(x, s)  i == SlabIdx(k, r, blk.pg)
             slot == SlabOff(k, r, blk.pg, blk.b) \div SlotSize(k)
         IN IF s >= 0 /\ ev.off < blk.us /\ i \in Pop(r) THEN [x EXCEPT !.reg[s].slabs[i].dirty = @ \cup {slot}] ELSE x
\* the tester restored the contents of a freed block
DoClean(x, ev) ==
    IF ev.id \in DOMAIN x.live THEN [x EXCEPT !.live[ev.id].corrupt = FALSE] ELSE
    LET blk == x.old[ev.id]  s == blk.s  k == Class(x, s)  r == GetReg(x, s)  i == SlabIdx(k, r, blk.pg)
        slot == SlabOff(k, r, blk.pg, blk.b) \div SlotSize(k)
    IN IF s >= 0 /\ i \in Pop(r) THEN [x EXCEPT !.reg[s].slabs[i].dirty = @ \ {slot}] ELSE x
\* pages the allocator holds and can access outside the slab region
RECURSIVE SumUsp(_, _)
SumUsp(x, D) == IF D = {} THEN 0 ELSE LET i == CHOOSE j \in D : TRUE IN x.live[i].usp + SumUsp(x, D \ {i})
DoHeld(x, ev) == EndOp(Bad(x, Tag(ev.n = SumLen(x.acct), "C11")
    \cup Tag(x.acct = {<<x.meta.a, x.meta.b>>} \cup {<<x.live[i].a, x.live[i].z>> : i \in LargeIds(x)} \cup {<<x.quar[j].a, x.quar[j].b>> : j \in DOMAIN x.quar} \cup x.lost, "C11")
    \cup Tag(x.fault # 0 \/ ev.rw = SumLen(x.meta.acc) + SumUsp(x, LargeIds(x)), "C11")))

(* ------------------------------------------------------------ statistics - *)
StatBin(x, s) == LET r == GetReg(x, s)  k == Class(x, s)
                     RECURSIVE U(_)
                     U(D) == IF D = {} THEN 0 ELSE LET i == CHOOSE j \in D : TRUE IN Cardinality(r.slabs[i].used) + U(D \ {i})
                 IN [nm |-> r.nm, nd |-> r.nd, sap |-> Cardinality(Pop(r)) * SlabPages(k), al |-> U(Pop(r)) * SlotSize(k)]
BytesOf(p, b) == p * 4096 + b
RECURSIVE SumUs(_, _)
SumUs(x, D) == IF D = {} THEN 0 ELSE LET i == CHOOSE j \in D : TRUE IN x.live[i].us + SumUs(x, D \ {i})
RECURSIVE SumBin(_, _, _)
SumBin(x, D, f) == IF D = {} THEN 0 ELSE LET s == CHOOSE j \in D : TRUE  v == StatBin(x, s) IN (IF f = 1 THEN v.sap ELSE v.al) + SumBin(x, D \ {s}, f)
DoStat0(x, ev) == Bad([x EXCEPT !.sb = <<>>], Tag(ev.ret = 0 /\ ev.bad = -1 /\ ev.eb = 22 /\ (x.cfg.stats = 1 \/ ev.empty = 1), "C21") \cup SealOk(ev))
DoStatBin(x, ev) ==
    LET v == StatBin(x, ev.s) IN
    Bad([x EXCEPT !.sb = Append(@, ev.s)],
        Tag(ev.nm = v.nm /\ ev.nd = v.nd /\ ev.sap \in {v.sap, IF x.cfg.android = 1 THEN -1 ELSE v.sap} /\ ev.sab = 0 /\ ev.al = v.al
            /\ ev.size = (IF x.cfg.android = 1 THEN -1 ELSE SizeOf(Class(x, ev.s))), "C21")
        \cup (IF x.cfg.android = 1 THEN SealOk(ev) ELSE {}))
\* Android: totals of an arena
DoStatArena(x, ev) ==
    LET D == {s \in DOMAIN x.reg : s \div x.cfg.nclass = ev.ar}
    IN Bad(x, Tag(ev.hp = SumBin(x, D, 1) /\ ev.hb = 0 /\ ev.al = SumBin(x, D, 2) /\ ev.o = 0, "C21") \cup SealOk(ev))
DoStat1(x, ev) ==
    LET L == SumUs(x, LargeIds(x))  A == SumBin(x, DOMAIN x.reg, 2)  P == SumBin(x, DOMAIN x.reg, 1)
        seen == {x.sb[i] : i \in DOMAIN x.sb}
    IN EndOp(Bad(x, IF x.cfg.stats = 1
        THEN Tag(/\ ev.have = (IF x.meta.up \/ x.cfg.android = 1 THEN x.cfg.narena + 1 ELSE 0) /\ BytesOf(ev.lp, ev.lb) = L
                 /\ seen = {s \in DOMAIN x.reg : x.reg[s].nm > 0 \/ (x.cfg.android = 0 /\ Pop(x.reg[s]) # {})} /\ Len(x.sb) = Cardinality(seen)
                 /\ BytesOf(ev.hp, ev.hb) = P * 4096 + L /\ BytesOf(ev.up, ev.ub) = A + L
                 /\ BytesOf(ev.fp, ev.fb) = P * 4096 - A /\ BytesOf(ev.mp, ev.mb) = P * 4096 + L, "C21")
        ELSE Tag(ev.have = 0 /\ ev.hp = 0 /\ ev.hb = 0 /\ ev.up = 0 /\ ev.ub = 0 /\ ev.fp = 0 /\ ev.fb = 0, "C21")))

(* ------------------------------------------------------------ probes ----- *)
(* A probe runs one call in a copy of the process: out 0 returned, 1 fatal    *)
(* allocator error, 2 memory fault.                                           *)
Dies(ev) == ev.out \in {1, 2}
Returns(ev) == ev.out = 0
\* calls of a copy of the process in which nothing was set up before
EarlyProbe(x, ev) ==
    CASE ev.k = "mal" -> Dies(ev) \/ (Returns(ev) /\ ev.v # 0)          \* with failing system calls: no half-made state
      [] ev.null = 1 -> Returns(ev)
      [] ev.k = "o" -> Returns(ev) /\ ev.v = -1
      [] ev.k = "of" -> Returns(ev) /\ ev.v \in {-1, 0}
      [] ev.k \in {"f", "fs", "r", "u"} -> ev.out = 1
      [] OTHER -> TRUE
DoProbe(x, ev) ==
    LET at == LiveAt(x, ev.s, ev.pg, ev.b)  isLive == at # {}
        id == CHOOSE i \in at : TRUE
        blk == x.live[id]
        req == Entitled(x.cfg, ev.arg, CeilDiv(ev.arg, 4096), 0)
        sameSize == IF blk.s >= 0 THEN req.small /\ req.k = blk.k
                    ELSE \* a large block may have been made for an over-aligned small request
                         IF ev.arg >= BigRq THEN FALSE ELSE LargeBytes(x.cfg, Adjust(x.cfg, ev.arg)) = blk.us
        inSmall == ev.s >= 0 /\ \E i \in DOMAIN x.live : LET y == x.live[i] IN y.s = ev.s /\ y.us > 0 /\ Overlap(y, [s |-> ev.s, pg |-> ev.pg, b |-> ev.b, us |-> 1, usp |-> 1])
        k == IF ev.s >= 0 THEN Class(x, ev.s) ELSE -1
        r == GetReg(x, ev.s)
        ii == SlabIdx(k, r, ev.pg)
        slot == SlabOff(k, r, ev.pg, ev.b) \div SlotSize(k)
        inSlot == ev.s >= 0 /\ r.base >= 0 /\ ii \in Pop(r) /\ slot \in r.slabs[ii].used
        sameClass == ev.s >= 0 /\ req.small /\ req.k = k
    IN IF ~x.meta.up THEN Bad(x, Tag(EarlyProbe(x, ev), "C27")) ELSE EndOp(Bad(x,
       CASE ev.null = 1 -> Tag(ev.k \in {"ld", "sto"} \/ Returns(ev), "C28")
         [] ev.k = "f" -> IF isLive THEN IF blk.corrupt THEN Tag(Dies(ev), "C08") ELSE Tags(Returns(ev), {"C06"}) \cup (IF blk.s >= 0 THEN Tag(Returns(ev), "C08") ELSE {})
                          ELSE Tag(Dies(ev), "C06")
         [] ev.k = "fs" -> IF isLive THEN IF blk.corrupt THEN Tag(Dies(ev), "C08") ELSE IF sameSize THEN Tags(Returns(ev), {"C06", "C07"}) ELSE Tag(Dies(ev), "C07")
                           ELSE Tag(Dies(ev), "C06")
         [] ev.k = "r" -> IF isLive THEN IF blk.corrupt THEN IF sameClass THEN {} ELSE Tag(Dies(ev), "C08") ELSE Tags(Returns(ev), {"C05", "C06"})
                          ELSE IF sameClass THEN {} ELSE Tag(Dies(ev), "C06")
         [] ev.k = "u" -> IF isLive THEN IF blk.corrupt THEN Tag(Dies(ev), "C08") ELSE Tag(Returns(ev) /\ SameSize(ev.v, blk.us), "C20")
                          ELSE Tag(Dies(ev), "C20")
         [] ev.k = "o" -> IF ev.s < 0 THEN Tag(Returns(ev) /\ SameSize(ev.v, IF isLive THEN blk.us ELSE -1), "C20")
                          ELSE IF inSmall THEN {} ELSE IF inSlot THEN {} ELSE Tag(Dies(ev), "C20")
         [] ev.k = "of" -> Tag(Returns(ev), "C20")
         [] ev.k \in {"ld", "sto"} ->
                IF \E i \in DOMAIN x.live : x.live[i].us > 0 /\ Overlap(x.live[i], [s |-> ev.s, pg |-> ev.pg, b |-> ev.b, us |-> 1, usp |-> 1]) THEN Tag(Returns(ev), "C01")
                ELSE IF ev.s = -1 THEN Tags(x.fault # 0 \/ Dies(ev), {"C11", "C12"})
                ELSE IF ev.s >= 0 /\ (k = 0 \/ r.base < 0 \/ ii \notin Pop(r)) THEN Tags(Dies(ev), IF k # 0 /\ r.base >= 0 /\ ii \in Purged(r) THEN {"C13", "C14"} ELSE {"C13"})
                ELSE {}
         [] ev.k = "ro" -> Tag(Dies(ev), "C16")
         [] ev.k = "mw" -> \* many allocations of one size; hit: the freed block of the probe was handed out
                LET o == x.old[ev.id]  rr == GetReg(x, o.s)  kk == Class(x, o.s)  oi == SlabIdx(kk, rr, o.pg)
                    os == SlabOff(kk, rr, o.pg, o.b) \div SlotSize(kk)
                    dirty == oi \in Pop(rr) /\ os \in rr.slabs[oi].dirty
                    anyDirty == \E j \in Pop(rr) : rr.slabs[j].dirty # {}
                IN IF x.cfg.waf = 0 THEN {}
                   ELSE Tag(~(dirty /\ ev.hit = 1), "C09") \cup Tag(anyDirty \/ Returns(ev), "C09")
                        \cup Tag(~(dirty /\ NoSQ(x.cfg) /\ ev.argp >= SumNonLive(kk, rr, Pop(rr))) \/ Dies(ev), "C09")
         [] OTHER -> {}))

(* ------------------------------------------------------------ start, fork, end *)
DoStart(x, ev) ==
    \* the start-up allocation of 16 bytes was freed again: one block of an unknown slot
    LET y == OpenSlabs(x)
        s32 == FitClass(16 + Can(x.cfg), 4)
        z == IF x.cfg.selfinit = 1 /\ s32 \in DOMAIN y.reg
             THEN [y EXCEPT !.reg[s32] = [@ EXCEPT !.nm = 1, !.nd = 1, !.hi = 0, !.slabs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.fresh = FALSE]]]] ELSE y
        m == IF x.maps = {} THEN <<0, 0>> ELSE CHOOSE i \in x.maps : \A j \in x.maps : j[2] - j[1] <= i[2] - i[1]
    IN EndOp(Bad(z, SealOk(ev) \cup (IF x.cfg.selfinit = 1 THEN Tag(x.maps = {m} /\ x.meta.ro /\ x.meta.slab, "C16") ELSE {})
                    \cup (IF x.cfg.selfinit = 1 THEN Tag(x.meta.slab, "C15") ELSE {})))
\* the biggest mapping made while starting holds the allocator state
DoSysInit(x, ev) ==
    IF ~x.meta.up /\ ev.err = 0 /\ ev.s = -1 /\ ev.c = "map" /\ ev.n > 100
    THEN [x EXCEPT !.meta.a = ev.pg, !.meta.b = ev.pg + ev.n, !.meta.up = TRUE, !.maps = @ \cup {<<ev.pg, ev.pg + ev.n>>},
                 !.acct = IF x.cfg.selfinit = 1 THEN @ ELSE @ \cup {<<ev.pg, ev.pg + ev.n>>}]
    ELSE IF x.meta.up /\ x.meta.acc = {} /\ ev.err = 0 /\ ev.s = -1 /\ ev.c = "rw" /\ InMeta(x, ev)
    THEN \* fixed part of the state; its guard must not be empty and the tables follow
         Bad([x EXCEPT !.meta.acc = {<<ev.pg, ev.pg + ev.n>>}, !.meta.lo = ev.pg + ev.n], Tag(ev.pg > x.meta.a, "C16"))
    ELSE DoSys(x, ev)
DoFork(x) == [x EXCEPT !.stack = Append(@, x), !.marks = [s \in {-1} \cup DOMAIN x.reg |-> <<>>], !.nrnd = 0]
DoEndFork(x, ev) ==
    LET p == x.stack[Len(x.stack)]
    IN [p EXCEPT !.bad = x.bad \cup Tags(ev.done = 1 /\ ev.sig = 0, {"C18"}), !.kids = @ \cup {x.marks},
                 !.marks = IF DOMAIN @ = {} THEN [s \in {-1} \cup DOMAIN p.reg |-> <<>>] ELSE @]
\* the random choices made after a fork by the children and the parent differ
DoIndep(x, ev) ==
    LET all == x.kids \cup {x.marks}
        D == {s \in DOMAIN x.marks : \A m \in all : s \in DOMAIN m /\ Len(m[s]) = 12 /\ (s = -1 \/ x.cfg.rand = 1 \/ x.cfg.canary = 1)}
    IN Bad(x, Tag(Cardinality(all) = Cardinality(x.kids) + 1 /\ Cardinality(x.kids) = ev.n /\ D # {}
                  /\ \A s \in D : (s >= 0 /\ SlotsOf(Class(x, s)) < 16 /\ (x.cfg.canary = 0 \/ x.cfg.mte = 1 \/ Class(x, s) = 0 \/ \A m \in all : \A j \in 1..12 : Len(m[s][j]) = 1))
                                  \/ Cardinality({m[s] : m \in all}) = Cardinality(all), "C18"))
\* generators of different classes and arenas make different choices
DoGens(x, ev) ==
    LET D == {s \in DOMAIN x.marks \ {-1} : Len(x.marks[s]) = 12 /\ SlotsOf(Class(x, s)) >= 32} IN
    Bad(x, Tag(x.cfg.rand = 0 \/ (Cardinality(D) >= ev.n /\ Cardinality({x.marks[s] : s \in D}) = Cardinality(D)), "C22"))
\* ev.n pairs of malloc and free of one size: the generator of its class draws 2 bytes per allocation and, with a slot
\* quarantine, 8 bytes per release, and reads 40 bytes from the kernel at least every 262144 bytes
DoBurn(x, ev) ==
    LET per == (IF x.cfg.rand = 1 THEN 2 ELSE 0) + (IF x.cfg.sqr > 0 THEN 8 ELSE 0) IN
    Bad(x, Tag(ev.rnd % 40 = 0 /\ (ev.rnd \div 40 + 1) * 262144 >= ev.n * per, "C22"))
\* every thread has made a small allocation: arenas were given out in rotation (in the order given, if any)
DoArenas(x, ev) ==
    LET D == DOMAIN x.arena  N == x.cfg.narena IN
    Bad(x, Tag(/\ Cardinality(D) = ev.n
               /\ \A a \in 0..(N - 1) : Cardinality({t \in D : x.arena[t] = a}) = CeilDiv(Max2(ev.n - a, 0), N)
               /\ \A i \in DOMAIN ev.order : ev.order[i] \in D /\ x.arena[ev.order[i]] = (i - 1) % N, "C27"))
\* after enough repetitions every value of a random choice has occurred
DoCover(x, ev) ==
    CASE ev.k = "slot" -> LET D == {s \in DOMAIN x.firsts : Class(x, s) = ev.n}
                          IN Bad(x, Tag(UNION {x.firsts[s] : s \in D} = 0..(SlotsOf(ev.n) - 1), "C23"))
      [] ev.k = "guard" -> LET B == Max2(1, ev.n \div x.cfg.gdiv)  G == IF ev.n \in DOMAIN x.guards THEN x.guards[ev.n] ELSE {}
                           IN Bad(x, Tag(Cardinality(G \cap 1..B) * 8 >= B * 7 /\ (B > 16 \/ Cardinality(G) >= B), "C12"))
DoFault(x, ev) == [x EXCEPT !.fault = IF ev.mask = 0 THEN @ ELSE @ + 1]
DoDeath(x, ev) == Bad(x, {"DEATH"})
DoReset(x, ev) == [H0 EXCEPT !.cfg = ev, !.bad = x.bad]

Init == h = H0
Eff(x, ev) ==
    CASE ev.e = "cfg" -> DoReset(x, ev)
           [] ev.e = "sys" -> DoSysInit(x, ev)
           [] ev.e = "al" -> DoAlloc(x, ev)
           [] ev.e = "fr" -> DoFree(x, ev)
           [] ev.e = "re" -> DoRealloc(x, ev)
           [] ev.e = "au" -> DoAudit(x, ev)
           [] ev.e = "us" -> DoUsable(x, ev)
           [] ev.e = "os" -> DoObject(x, ev)
           [] ev.e = "ox" -> DoForeign(x, ev)
           [] ev.e = "nul" -> DoNull(x, ev)
           [] ev.e = "tr" -> DoTrim(x, ev)
           [] ev.e = "w" -> DoWrite(x, ev)
           [] ev.e = "held" -> DoHeld(x, ev)
           [] ev.e = "st0" -> DoStat0(x, ev)
           [] ev.e = "sb" -> DoStatBin(x, ev)
           [] ev.e = "sa" -> DoStatArena(x, ev)
           [] ev.e = "st1" -> DoStat1(x, ev)
           [] ev.e = "P" -> DoProbe(x, ev)
           [] ev.e = "start" -> DoStart(x, ev)
           [] ev.e = "fork" -> DoFork(x)
           [] ev.e = "endfork" -> DoEndFork(x, ev)
           [] ev.e = "indep" -> DoIndep(x, ev)
           [] ev.e = "fa" -> DoFault(x, ev)
           [] ev.e = "cover" -> DoCover(x, ev)
           [] ev.e = "arenas" -> DoArenas(x, ev)
           [] ev.e = "gens" -> DoGens(x, ev)
           [] ev.e = "burn" -> DoBurn(x, ev)
           [] ev.e = "clean" -> DoClean(x, ev)
           [] ev.e = "mark" -> [x EXCEPT !.marks = [s \in IF "all" \in DOMAIN ev THEN 0..(x.cfg.nclass * x.cfg.narena - 1) ELSE {-1} \cup DOMAIN x.reg |-> <<>>]]
           [] ev.e = "lk" -> Bad(x, Tag(ev.in = 0 \/ ev.seal # 1, "C24"))
           [] ev.e \in {"fatal", "crash", "hang", "die"} -> DoDeath(x, ev)
           [] ev.e \in {"end", "mo"} -> Bad(x, SealOk(ev))
           [] OTHER -> x
Step(ev) == h' = Eff(h, ev)
=============================================================================
