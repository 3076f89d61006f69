---------------------------------- MODULE Slab ---------------------------------
(* Design of one size class: the lists of partly used and empty slabs, the    *)
(* purged slabs behind their delay array, and the slot quarantine (random     *)
(* array in front of a queue).  Every step also reports the events an         *)
(* observer would record, and the observer's specification Heap runs along:   *)
(* the invariant Quiet says that nothing the design can do contradicts a      *)
(* guarantee, whatever the random choices and failures of system calls are.   *)
(* Slab numbers are those of the real class region: guard slabs are skipped.  *)
EXTENDS Heap
CONSTANTS K,            \* the size class
          NS, NR, NQ,   \* slots per slab; lengths of the quarantine's random array and queue
          FS,           \* length of the delay array of purged slabs
          EL,           \* bytes of empty slabs that are kept
          GI, MaxSlabs, \* guard slab interval; size of the class region in slabs
          RandomSlot,   \* is the slot within a slab chosen at random?
          Faults        \* may system calls fail?
VARIABLES used, owned, partial, empty, freeq, fqa, qr, qq, qi, hi
dvars == << used, owned, partial, empty, freeq, fqa, qr, qq, qi, hi >>

MySlots == [i \in 1..49 |-> NS]
MyLimit(c) == EL
Ext == IF K > 36 THEN 1 ELSE 0
Shift == QShift([ext |-> Ext], K)
Cfg == [nclass |-> IF Ext = 1 THEN 49 ELSE 37, narena |-> 1, ext |-> Ext, large |-> 1, canary |-> 0, zero |-> 1, waf |-> 1, rand |-> IF RandomSlot THEN 1 ELSE 0,
        sqr |-> NR \div 2^Shift, sqq |-> NQ \div 2^Shift, rqr |-> 0, rqq |-> 0, thrp |-> 512, fsq |-> FS, gint |-> GI, gdiv |-> 2, stats |-> 1, seal |-> 0,
        cregp |-> MaxSlabs * SlabPages(K), selfinit |-> 1, cxx |-> 0, mte |-> 0, android |-> 0]
None == << -1, -1 >>
Slots == 0..(NS - 1)
SlabB == SlabPages(K) * 4096
Base == 1
Page(i, j) == Base + i * SlabPages(K) + (j * SlotSize(K)) \div 4096
Byte(j) == (j * SlotSize(K)) % 4096
Next1(i) == IF IsGuardSlab(Cfg, i + 1) THEN i + 2 ELSE i + 1
Slabs == DOMAIN used
Free(u, i) == Slots \ u[i]
Quarantined == ({qr[i] : i \in DOMAIN qr} \cup {qq[i] : i \in DOMAIN qq}) \ {None}
Id(i, j) == i * NS + j

(* ------------------------------------------------------------ events ----- *)
Sys(c, i, err) == [e |-> "sys", t |-> 0, c |-> c, s |-> K, pg |-> Base + i * SlabPages(K), b |-> 0, n |-> SlabPages(K), err |-> err]
Rq == SizeOf(K)
AlEv(i, j) == [e |-> "al", t |-> 0, k |-> "malloc", id |-> Id(i, j), rq |-> Rq, rqp |-> 1, al |-> 0, imp |-> 0, bal |-> 0, ok |-> 1, ret |-> 0, er |-> 77,
               s |-> K, pg |-> Page(i, j), b |-> Byte(j), tz |-> 12, us |-> SizeOf(K), usp |-> CeilDiv(SizeOf(K), 4096), acc |-> IF K = 0 THEN 0 ELSE 2, gl |-> -1, gr |-> -1,
               c0 |-> -1, h1 |-> 0, h2 |-> 0, z |-> -1, seal |-> -1]
NoEv == [AlEv(0, 0) EXCEPT !.ok = 0, !.er = 12, !.id = 999]
FrEv(x) == [e |-> "fr", t |-> 0, k |-> "free", id |-> Id(x[1], x[2]), er |-> 77, ol |-> 0, ax |-> 2, oz |-> -1, seal |-> -1]
TrEv(n) == [e |-> "tr", t |-> 0, ret |-> IF n > 0 THEN 1 ELSE 0, seal |-> -1]
RECURSIVE Run(_, _)
Run(x, E) == IF E = <<>> THEN x ELSE Run(Eff(x, Head(E)), Tail(E))
Report(E) == h' = Run(h, E)

(* ------------------------------------------------------------ allocation - *)
\* slot choice: any free slot, or the lowest one
Pick(u, i) == IF RandomSlot THEN Free(u, i) ELSE {CHOOSE j \in Free(u, i) : \A q \in Free(u, i) : j <= q}
Take(u, i, j, others, E) ==
    /\ used' = [u EXCEPT ![i] = @ \cup {j}]
    /\ owned' = owned \cup {<< i, j >>}
    /\ partial' = IF Cardinality(u[i]) + 1 < NS THEN << i >> \o others ELSE others
    /\ Report(Append(E, AlEv(i, j)))
FromPartial ==
    /\ partial # <<>>
    /\ LET i == Head(partial) IN \E j \in Pick(used, i) : Take(used, i, j, Tail(partial), <<>>)
    /\ UNCHANGED << empty, freeq, fqa, qr, qq, qi, hi >>
FromEmpty ==
    /\ partial = <<>> /\ empty # <<>>
    /\ LET i == Head(empty) IN \E j \in Pick(used, i) : Take(used, i, j, <<>>, <<>>)
    /\ empty' = Tail(empty)
    /\ UNCHANGED << freeq, fqa, qr, qq, qi, hi >>
FromPurged ==
    /\ partial = <<>> /\ empty = <<>> /\ freeq # <<>>
    /\ LET i == Head(freeq) IN \E j \in Pick(used, i) : Take(used, i, j, <<>>, IF K = 0 THEN <<>> ELSE << Sys("rw", i, 0) >>)
    /\ freeq' = Tail(freeq)
    /\ UNCHANGED << empty, fqa, qr, qq, qi, hi >>
FromFresh ==
    /\ partial = <<>> /\ empty = <<>> /\ freeq = <<>> /\ Next1(hi) < MaxSlabs
    /\ LET i == Next1(hi)  u == (i :> {}) @@ used IN
       /\ \E j \in Pick(u, i) : Take(u, i, j, <<>>, IF K = 0 THEN <<>> ELSE << Sys("rw", i, 0) >>)
       /\ hi' = i
    /\ UNCHANGED << empty, freeq, fqa, qr, qq, qi >>
NoMemory ==
    /\ partial = <<>> /\ empty = <<>>
    /\ \/ freeq = <<>> /\ Next1(hi) >= MaxSlabs /\ Report(<< NoEv >>)
       \/ Faults /\ K # 0 /\ freeq # <<>> /\ Report(<< Sys("rw", Head(freeq), 12), NoEv >>)
       \/ Faults /\ K # 0 /\ freeq = <<>> /\ Next1(hi) < MaxSlabs /\ Report(<< Sys("rw", Next1(hi), 12), NoEv >>)
    /\ UNCHANGED dvars
Alloc == FromPartial \/ FromEmpty \/ FromPurged \/ FromFresh \/ NoMemory

(* ------------------------------------------------------------ release ---- *)
\* the slot x leaves the quarantine (or never entered it): p, e, f, a are the lists, E the events so far
Without(q, i) == SelectSeq(q, LAMBDA y : y # i)
Enqueue(i, P, e, E) ==   \* the slab was purged
    IF FS = 0 THEN freeq' = Append(freeq, i) /\ fqa' = fqa
    ELSE \E n \in DOMAIN fqa : /\ fqa' = [fqa EXCEPT ![n] = i]
                               /\ freeq' = IF fqa[n] = -1 THEN freeq ELSE Append(freeq, fqa[n])
Finish(x, o, E) ==
    LET i == x[1]  wasFull == used[i] = Slots  p1 == IF wasFull THEN << i >> \o partial ELSE partial
        u == [used EXCEPT ![i] = @ \ {x[2]}]
    IN /\ used' = u /\ owned' = owned \ {o}
       /\ IF u[i] # {} THEN partial' = p1 /\ UNCHANGED << empty, freeq, fqa >> /\ Report(Append(E, FrEv(o)))
          ELSE /\ partial' = Without(p1, i)
               /\ IF (Len(empty) + 1) * SlabB > EL
                  THEN \/ Enqueue(i, p1, empty, E) /\ UNCHANGED empty /\ Report(E \o << Sys("fix", i, 0), FrEv(o) >>)
                       \/ Faults /\ empty' = << i >> \o empty /\ UNCHANGED << freeq, fqa >> /\ Report(E \o << Sys("fix", i, 12), Sys("purge", i, 0), FrEv(o) >>)
                  ELSE empty' = << i >> \o empty /\ UNCHANGED << freeq, fqa >> /\ Report(Append(E, FrEv(o)))
Stay(o) == owned' = owned \ {o} /\ Report(<< FrEv(o) >>) /\ UNCHANGED << used, partial, empty, freeq, fqa >>
Queue(x, o) ==
    IF NQ = 0 THEN Finish(x, o, <<>>) /\ UNCHANGED << qq, qi >>
    ELSE /\ qq' = [qq EXCEPT ![qi] = x] /\ qi' = (qi % NQ) + 1
         /\ IF qq[qi] = None THEN Stay(o) ELSE Finish(qq[qi], o, <<>>)
Release(o) ==
    /\ o \in owned
    /\ IF NR = 0 THEN Queue(o, o) /\ UNCHANGED qr
       ELSE \E n \in DOMAIN qr : /\ qr' = [qr EXCEPT ![n] = o]
                                 /\ IF qr[n] = None THEN Stay(o) /\ UNCHANGED << qq, qi >> ELSE Queue(qr[n], o)
    /\ UNCHANGED hi

(* ------------------------------------------------------------ trimming --- *)
RECURSIVE TrimAll(_, _)
TrimAll(q, f) == IF q = <<>> THEN f ELSE TrimAll(Tail(q), Append(f, Head(q)))
Trim ==
    /\ K # 0 /\ FS <= 1     \* for longer delay arrays see TrimOne
    /\ LET all == (IF FS = 1 /\ fqa[1] # -1 THEN << fqa[1] >> ELSE <<>>) \o empty
           out == IF FS = 1 /\ all # <<>> THEN SubSeq(all, 1, Len(all) - 1) ELSE all
       IN IF empty = <<>> THEN UNCHANGED << freeq, fqa >>
          ELSE freeq' = freeq \o out /\ fqa' = IF FS = 1 THEN [fqa EXCEPT ![1] = all[Len(all)]] ELSE fqa
    /\ empty' = <<>>
    /\ Report([n \in 1..Len(empty) |-> Sys("fix", empty[n], 0)] \o << TrEv(Len(empty)) >>)
    /\ UNCHANGED << used, owned, partial, qr, qq, qi, hi >>

Init1 == /\ used = <<>> /\ owned = {} /\ partial = <<>> /\ empty = <<>> /\ freeq = <<>> /\ hi = -1
         /\ fqa = [n \in 1..FS |-> -1] /\ qr = [n \in 1..NR |-> None] /\ qq = [n \in 1..NQ |-> None] /\ qi = 1
         /\ h = [H0 EXCEPT !.cfg = Cfg, !.meta = [Meta0 EXCEPT !.a = 0, !.b = 90, !.up = TRUE, !.slab = TRUE, !.ro = TRUE, !.roFail = TRUE, !.lo = 2, !.acc = {<< 1, 3 >>}],
                           !.fault = IF Faults THEN 1 ELSE 0, !.maps = {<< 0, 90 >>}, !.acct = {<< 0, 90 >>}]
\* the base of the region is learnt from the first slab
Next == Alloc \/ Trim \/ \E o \in owned : Release(o)
Spec == Init1 /\ [][Next]_<< dvars, h >>

(* ------------------------------------------------------------ invariants - *)
Judged == {"C01", "C02", "C03", "C04", "C09", "C10", "C13", "C14", "C15", "C19", "C21", "C23", "C27", "C28"}
Quiet == h.bad = {}
Seqs == {partial, empty, freeq}
In(q, i) == \E n \in DOMAIN q : q[n] = i
NoDup(q) == \A a, b \in DOMAIN q : q[a] = q[b] => a = b
FqaSlabs == {fqa[n] : n \in DOMAIN fqa} \ {-1}
Lists == /\ \A q \in Seqs : NoDup(q) /\ \A n \in DOMAIN q : q[n] \in Slabs
         /\ \A i \in Slabs : Cardinality({q \in 1..4 : CASE q = 1 -> In(partial, i) [] q = 2 -> In(empty, i) [] q = 3 -> In(freeq, i) [] q = 4 -> i \in FqaSlabs}) = IF used[i] = Slots THEN 0 ELSE 1
         /\ \A i \in Slabs : (used[i] = {}) = (In(empty, i) \/ In(freeq, i) \/ i \in FqaSlabs)
Slotted == /\ owned \cap Quarantined = {}
           /\ owned \cup Quarantined = UNION {{<< i, j >> : j \in used[i]} : i \in Slabs}
           /\ \A a, b \in DOMAIN qr : a # b /\ qr[a] # None => qr[a] # qr[b]
           /\ \A a, b \in DOMAIN qq : a # b /\ qq[a] # None => qq[a] # qq[b]
\* what the observer knows of the population agrees with the design
Agrees == LET r == GetReg(h, K) IN
          /\ \A i \in DOMAIN r.slabs : r.slabs[i].used = {j \in Slots : << i, j >> \in owned}
          /\ Pop(r) = {i \in Slabs : ~In(freeq, i) /\ i \notin FqaSlabs}
          /\ {<< x.pg, x.b >> : x \in {h.live[n] : n \in DOMAIN h.live}} = {<< Page(o[1], o[2]), Byte(o[2]) >> : o \in owned}
Cached == Faults \/ Len(empty) * SlabB <= EL
\* the observer's counters only matter as differences
R0 == GetReg(h, K)
Ages == [i \in DOMAIN R0.slabs |-> << R0.slabs[i].pop, R0.slabs[i].used, [j \in DOMAIN R0.slabs[i].fr |-> Min2(R0.nd - R0.slabs[i].fr[j], NR + NQ + 2)],
                                      IF R0.slabs[i].pt < 0 THEN -1 ELSE Min2(R0.np - R0.slabs[i].pt, MaxSlabs + FS + 2) >>]
View == << dvars, h.bad, Ages >>
=============================================================================
