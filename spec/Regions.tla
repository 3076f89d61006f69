--------------------------------- MODULE Regions -------------------------------
(* Design of large allocations: mapping with guards, shrinking in place, the  *)
(* quarantine of released address ranges (random array in front of a queue,   *)
(* skipped by ranges over the threshold), and every failure of the system     *)
(* calls involved.  As in Slab, each step reports the events an observer      *)
(* records, and Heap runs along: nothing the design can do contradicts a      *)
(* guarantee.  A page is the unit; addresses are chosen freely by the kernel. *)
EXTENDS Heap
CONSTANTS W,            \* pages of the address space
          Sizes2,       \* classes of large blocks in use, << bytes requested, pages >>
          Thr,          \* ranges of at least so many pages skip the quarantine
          NR, NQ,       \* lengths of the random array and of the queue
          MaxLive, Faults
VARIABLES mapped,       \* ranges << a, b >> that are mapped
          blocks,       \* live blocks [a, p, n]: guard, first page, pages; the other guard is one page too
          qr, qq, qi
dvars == << mapped, blocks, qr, qq, qi >>
Cfg == [nclass |-> 37, narena |-> 1, ext |-> 0, large |-> 1, canary |-> 0, zero |-> 1, waf |-> 1, rand |-> 1, sqr |-> 0, sqq |-> 0, rqr |-> NR, rqq |-> NQ,
        thrp |-> Thr, fsq |-> 1, gint |-> 1, gdiv |-> 8, stats |-> 1, seal |-> 0, cregp |-> 100000, selfinit |-> 1, cxx |-> 0, mte |-> 0, android |-> 0]
None == << -1, -1 >>
MySizes == {<< 20000, 5 >>, << 24000, 6 >>}
Base == 1000
Range(b) == << b.p - 1, b.p + b.n + 1 >>
FreeAt(M, a, b) == \A r \in M : r[2] <= a \/ b <= r[1]

(* ------------------------------------------------------------ events ----- *)
Sys(c, a, b, err) == [e |-> "sys", t |-> 0, c |-> c, s |-> -1, pg |-> a, b |-> 0, n |-> b - a, err |-> err]
AlEv(id, p, z) == [e |-> "al", t |-> 0, k |-> "malloc", id |-> id, rq |-> z[1], rqp |-> CeilDiv(z[1], 4096), al |-> 0, imp |-> 0, bal |-> 0, ok |-> 1, ret |-> 0, er |-> 77,
                   s |-> -1, pg |-> p, b |-> 0, tz |-> 12, us |-> z[2] * 4096, usp |-> z[2], acc |-> 2, gl |-> 1, gr |-> 1, c0 |-> -1, h1 |-> 0, h2 |-> 0, z |-> -1, seal |-> -1]
NoEv(z) == [AlEv(999, Base, z) EXCEPT !.ok = 0, !.er = 12, !.s = -2]
FrEv(id, ax) == [e |-> "fr", t |-> 0, k |-> "free", id |-> id, er |-> 77, ol |-> 0, ax |-> ax, oz |-> -1, seal |-> -1]
ReEv(id, b, z, ok) == [e |-> "re", t |-> 0, k |-> "realloc", id |-> id, rq |-> z[1], rqp |-> CeilDiv(z[1], 4096), imp |-> 0, bal |-> 0, ok |-> ok, ret |-> 0, er |-> IF ok = 1 THEN 77 ELSE 12, mv |-> 0,
                       s |-> -1, pg |-> b.p, b |-> 0, tz |-> 12, us |-> z[2] * 4096, usp |-> z[2], acc |-> 2, gl |-> 1, gr |-> 1, c0 |-> -1, h1 |-> 0, h2 |-> 0, z |-> -1, seal |-> -1,
                       al |-> 0, pre |-> 1, want |-> 1, ax |-> -1, oz |-> -1, z2 |-> -1]
RECURSIVE Run(_, _)
Run(x, E) == IF E = <<>> THEN x ELSE Run(Eff(x, Head(E)), Tail(E))
Report(E) == h' = Run(h, E)
Id(b) == b.p

(* ------------------------------------------------------------ steps ------ *)
Alloc == \E z \in Sizes2 : \E p \in (Base + 1)..(Base + W) :
    LET a == p - 1  b == p + z[2] + 1 IN
    /\ Cardinality(blocks) < MaxLive /\ b <= Base + W /\ FreeAt(mapped, a, b)
    /\ UNCHANGED << qr, qq, qi >>
    /\ \/ /\ mapped' = mapped \cup {<< a, b >>} /\ blocks' = blocks \cup {[p |-> p, n |-> z[2]]}
          /\ Report(<< Sys("map", a, b, 0), Sys("rw", p, p + z[2], 0), AlEv(p, p, z) >>)
       \/ /\ Faults /\ UNCHANGED << mapped, blocks >> /\ Report(<< Sys("map", a, b, 12), NoEv(z) >>)
       \/ /\ Faults /\ UNCHANGED << mapped, blocks >> /\ Report(<< Sys("map", a, b, 0), Sys("rw", p, p + z[2], 12), Sys("unmap", a, b, 0), NoEv(z) >>)
       \* the range is lost for good
       \/ /\ Faults /\ mapped' = mapped \cup {<< a, b >>} /\ UNCHANGED blocks
          /\ Report(<< Sys("map", a, b, 0), Sys("rw", p, p + z[2], 12), Sys("unmap", a, b, 12), NoEv(z) >>)

\* the range [a, b) was unmapped, or could not be
Unmap(a, b, E, F) ==
    \/ mapped' = mapped \ {<< a, b >>} /\ Report(E \o << Sys("unmap", a, b, 0) >> \o F)
    \/ Faults /\ mapped' = mapped /\ Report(E \o << Sys("unmap", a, b, 12) >> \o F)
\* a range of n pages at p with guards [a, b) is given up
Retire1(p, n, a, b, F) ==
    IF n >= Thr \/ NR + NQ = 0
    THEN /\ UNCHANGED << qr, qq, qi >>
         /\ \/ mapped' = mapped \ {<< a, b >>} /\ Report(<< Sys("unmap", a, b, 0) >> \o F)
            \/ Faults /\ mapped' = mapped /\ Report(<< Sys("unmap", a, b, 12), Sys("purge", p, p + n, 0) >> \o F)
    ELSE \E E \in {<< Sys("fix", p, p + n, 0) >>} \cup (IF Faults THEN {<< Sys("fix", p, p + n, 12), Sys("purge", p, p + n, 0) >>} ELSE {}) :
         LET t == << a, b >>
             Queue(y) == IF NQ = 0 THEN UNCHANGED << qq, qi >> /\ Unmap(y[1], y[2], E, F)
                         ELSE /\ qq' = [qq EXCEPT ![qi] = y] /\ qi' = (qi % NQ) + 1
                              /\ IF qq[qi] = None THEN mapped' = mapped /\ Report(E \o F) ELSE Unmap(qq[qi][1], qq[qi][2], E, F)
         IN IF NR = 0 THEN UNCHANGED qr /\ Queue(t)
            ELSE \E i \in DOMAIN qr : /\ qr' = [qr EXCEPT ![i] = t]
                                      /\ IF qr[i] = None THEN UNCHANGED << qq, qi >> /\ mapped' = mapped /\ Report(E \o F) ELSE Queue(qr[i])
Release == \E b \in blocks :
    /\ blocks' = blocks \ {b}
    /\ Retire1(b.p, b.n, b.p - 1, b.p + b.n + 1, << FrEv(b.p, -1) >>)

\* the mapping is cut: [guard, block, guard] and the rest, which has no guards of its own
Shrink == \E b \in blocks : \E z \in Sizes2 :
    LET cut == b.p + z[2] + 1  zz == b.p + b.n + 1 IN
    /\ z[2] < b.n
    /\ \/ /\ Faults /\ UNCHANGED dvars /\ Report(<< Sys("fix", b.p + z[2], cut, 12), ReEv(b.p, b, z, 0) >>)
       \/ /\ blocks' = (blocks \ {b}) \cup {[p |-> b.p, n |-> z[2]]}
          /\ LET before == (mapped \ {<< b.p - 1, zz >>}) \cup {<< b.p - 1, cut >>, << cut, zz >>} IN
             LET E0 == << Sys("fix", b.p + z[2], cut, 0) >>  F == << ReEv(b.p, b, z, 1) >>  p == cut  n == b.n - z[2] IN
             IF n >= Thr \/ NR + NQ = 0
             THEN /\ UNCHANGED << qr, qq, qi >>
                  /\ \/ mapped' = before \ {<< cut, zz >>} /\ Report(E0 \o << Sys("unmap", cut, zz, 0) >> \o F)
                     \/ Faults /\ mapped' = before /\ Report(E0 \o << Sys("unmap", cut, zz, 12), Sys("purge", cut, zz, 0) >> \o F)
             ELSE \E E1 \in {<< Sys("fix", cut, zz, 0) >>} \cup (IF Faults THEN {<< Sys("fix", cut, zz, 12), Sys("purge", cut, zz, 0) >>} ELSE {}) :
                  LET E == E0 \o E1
                      Un(a, c) == \/ mapped' = before \ {<< a, c >>} /\ Report(E \o << Sys("unmap", a, c, 0) >> \o F)
                                  \/ Faults /\ mapped' = before /\ Report(E \o << Sys("unmap", a, c, 12) >> \o F)
                      Queue(y) == IF NQ = 0 THEN UNCHANGED << qq, qi >> /\ Un(y[1], y[2])
                                  ELSE /\ qq' = [qq EXCEPT ![qi] = y] /\ qi' = (qi % NQ) + 1
                                       /\ IF qq[qi] = None THEN mapped' = before /\ Report(E \o F) ELSE Un(qq[qi][1], qq[qi][2])
                  IN IF NR = 0 THEN UNCHANGED qr /\ Queue(<< cut, zz >>)
                     ELSE \E i \in DOMAIN qr : /\ qr' = [qr EXCEPT ![i] = << cut, zz >>]
                                               /\ IF qr[i] = None THEN UNCHANGED << qq, qi >> /\ mapped' = before /\ Report(E \o F) ELSE Queue(qr[i])
Init0 == /\ mapped = {} /\ blocks = {} /\ qr = [i \in 1..NR |-> None] /\ qq = [i \in 1..NQ |-> None] /\ qi = 1
         /\ h = [H0 EXCEPT !.cfg = Cfg, !.meta = [Meta0 EXCEPT !.a = 0, !.b = 90, !.up = TRUE, !.slab = TRUE, !.ro = TRUE, !.roFail = TRUE, !.lo = 2, !.acc = {<< 1, 3 >>}],
                           !.fault = IF Faults THEN 1 ELSE 0, !.maps = {<< 0, 90 >>}, !.acct = {<< 0, 90 >>}]
Next == Alloc \/ Release \/ Shrink
Spec == Init0 /\ [][Next]_<< dvars, h >>

(* ------------------------------------------------------------ invariants - *)
Quiet == h.bad = {}
Held == ({qr[i] : i \in DOMAIN qr} \cup {qq[i] : i \in DOMAIN qq}) \ {None}
\* mapped ranges are disjoint; each is a block, quarantined, or lost to a failure
Apart == /\ \A r, q \in mapped : r = q \/ r[2] <= q[1] \/ q[2] <= r[1]
         /\ {Range(b) : b \in blocks} \subseteq mapped /\ Held \subseteq mapped
         /\ {Range(b) : b \in blocks} \cap Held = {}
         /\ Faults \/ mapped = Held \cup {Range(b) : b \in blocks}
\* what the observer concluded
Agrees == /\ h.maps = mapped \cup {<< 0, 90 >>} /\ h.acct = h.maps
          /\ {<< h.live[i].pg, h.live[i].usp >> : i \in DOMAIN h.live} = {<< b.p, b.n >> : b \in blocks}
          /\ Faults \/ {<< h.quar[i].a, h.quar[i].b >> : i \in DOMAIN h.quar} = Held
Ages == [i \in DOMAIN h.quar |-> << h.quar[i].a, h.quar[i].b, Min2(h.nq - h.quar[i].n, NR + NQ + 3) >>]
View == << dvars, h.bad, h.lost, Ages, [i \in DOMAIN h.live |-> h.live[i].shrunk] >>
=============================================================================
