------------------------------- MODULE Sizes -------------------------------
(* Size classes of hardened_malloc: what block a request is entitled to.      *)
(* A configuration c is a record with fields ext, large, canary (0/1) and the *)
(* other facts of the build.  Byte sizes below 2^30 are exact, larger ones    *)
(* are counted in pages of 4096 bytes.                                        *)
EXTENDS Naturals, Integers, Sequences

ClassSizes == << 0, 16, 32, 48, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512,
    640, 768, 896, 1024, 1280, 1536, 1792, 2048, 2560, 3072, 3584, 4096, 5120, 6144, 7168, 8192,
    10240, 12288, 14336, 16384, 20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536,
    81920, 98304, 114688, 131072 >>
ClassSlots == << 256, 256, 128, 85, 64, 51, 42, 36, 64, 51, 64, 54, 64, 64, 64, 64, 64,
    64, 64, 64, 64, 16, 16, 16, 16, 8, 8, 8, 8, 8, 8, 8, 8, 6, 5, 4, 4,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 >>

Pow2 == [i \in 0..30 |-> 2^i]
Log2(n) == CHOOSE i \in 0..30 : Pow2[i] <= n /\ (i = 30 \/ n < Pow2[i + 1])
CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

MaxSmall(c) == IF c.ext = 1 THEN 131072 ELSE 16384
NClasses(c) == IF c.ext = 1 THEN 49 ELSE 37
Can(c) == IF c.canary = 1 THEN 8 ELSE 0
\* class k is ClassSizes[k + 1]
SizeOf(k) == ClassSizes[k + 1]
SlotSize(k) == IF k = 0 THEN 16 ELSE ClassSizes[k + 1]
SlotsOf(k) == ClassSlots[k + 1]
SlabPages(k) == CeilDiv(SlotsOf(k) * SlotSize(k), 4096)
Usable(c, k) == IF k = 0 THEN 0 ELSE SizeOf(k) - Can(c)
EmptyLimit(c) == IF c.ext = 1 THEN 131072 ELSE 65536
\* number of doublings from the class size to the largest class size (quarantine lengths)
QShift(c, k) == Log2(MaxSmall(c)) - Log2(SlotSize(k))
QRand(c, k) == c.sqr * 2^QShift(c, k)
QQueue(c, k) == c.sqq * 2^QShift(c, k)
RQ(c, k) == QRand(c, k) + QQueue(c, k)
MinDelay(c, k) == QQueue(c, k) + (IF c.sqr > 0 THEN 1 ELSE 0)

\* the smallest class k >= 1 of at least sz bytes whose size is a multiple of 2^al
FitClass(sz, al) == CHOOSE k \in 1..48 : /\ SizeOf(k) >= sz /\ SizeOf(k) % Pow2[al] = 0
                                         /\ \A j \in 1..(k - 1) : ~(SizeOf(j) >= sz /\ SizeOf(j) % Pow2[al] = 0)

Adjust(c, rq) == IF rq > 0 /\ rq <= MaxSmall(c) THEN rq + Can(c) ELSE rq

\* large size classes: four per doubling, at least a page
LargeBytes(c, sz) ==
    LET m == Max2(sz, 4096) IN
    IF c.large = 1 THEN LET sp == Pow2[Log2(m - 1) - 2] IN CeilDiv(m, sp) * sp
    ELSE CeilDiv(Max2(sz, 1), 4096) * 4096
LargePages(c, p) ==  \* p > 4 pages
    IF c.large = 1 /\ p > 4 THEN LET sp == Pow2[Max2(Log2(p - 1), 2) - 2] IN CeilDiv(p, sp) * sp ELSE p
BigRq == 536870912

\* the entitlement of a request of rq bytes (rqp pages, rounded up) with alignment 2^al
Entitled(c, rq, rqp, al) ==
    LET adj == Adjust(c, rq) IN
    IF al <= 12 /\ adj <= MaxSmall(c)
    THEN LET k == IF al > 4 THEN FitClass(adj, al) ELSE IF adj = 0 THEN 0 ELSE FitClass(adj, 4)
         IN [small |-> TRUE, k |-> k, us |-> Usable(c, k), usp |-> CeilDiv(Usable(c, k), 4096)]
    ELSE IF adj < BigRq
    THEN LET u == LargeBytes(c, adj) IN [small |-> FALSE, k |-> -1, us |-> u, usp |-> CeilDiv(u, 4096)]
    ELSE [small |-> FALSE, k |-> -1, us |-> -1, usp |-> LargePages(c, rqp)]

SameEntitlement(x, y) == x.small = y.small /\ x.k = y.k /\ (IF x.us >= 0 /\ y.us >= 0 THEN x.us = y.us ELSE x.usp = y.usp)
=============================================================================
