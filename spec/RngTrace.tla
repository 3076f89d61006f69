------------------------------ MODULE RngTrace ------------------------------
(* Trace validation of the random generators.  A generator is a ChaCha        *)
(* keystream under a seed of 40 bytes, of which avail holds the bytes nobody  *)
(* has received yet, oldest first, as far as they were computed.  A draw      *)
(* returns unused bytes: one run of them, or two (the end of what was cached  *)
(* and what follows, possibly under a new seed).  Skipping bytes is allowed,  *)
(* using a byte twice is not.  since counts the bytes returned since the last *)
(* seed was read from the operating system.                                   *)
EXTENDS ChaCha, Json, IOUtils, TLC, Integers, FiniteSets
VARIABLES l, gens, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
Judged == LET j == ndJsonDeserialize(IOEnv.JUDGED) IN {j[i] : i \in DOMAIN j}
Ev == Trace[l]
Tag(c) == IF c THEN {} ELSE {"C22"}
SeedLen == 40
ReseedAfter == 262144
Window == 640
Keep == 320
RECURSIVE Grow(_)
Grow(g) == IF Len(g.avail) >= Window THEN g ELSE Grow([g EXCEPT !.avail = @ \o Block(g.key, g.iv, g.ctr), !.ctr = @ + 1])
Gen(seed) == Grow([key |-> SubSeq(seed, 1, 32), iv |-> SubSeq(seed, 33, 40), ctr |-> 0, avail |-> <<>>, since |-> 0])
Fail == [key |-> <<>>, iv |-> <<>>, ctr |-> 0, avail |-> <<>>, since |-> 0]
Known(g) == g.key # <<>>
\* the first place where a run of bytes occurs in a; 0 if it does not
RECURSIVE From(_, _, _)
From(a, out, i) == IF i > Len(a) - Len(out) + 1 THEN 0
                   ELSE IF a[i] = out[1] /\ \A j \in 2..Len(out) : a[i + j - 1] = out[j] THEN i ELSE From(a, out, i + 1)
Find(a, out) == IF out = <<>> THEN 1 ELSE From(a, out, 1)
Without(a, i, n) == SubSeq(a, 1, i - 1) \o SubSeq(a, i + n, Len(a))
\* forget unused bytes that are far behind what was used last
Use(g, i, n) == LET a == Without(g.avail, i, n)  d == IF i > Keep THEN i - Keep ELSE 0
                IN Grow([g EXCEPT !.avail = SubSeq(a, d + 1, Len(a)), !.since = @ + n])
RECURSIVE Two(_, _, _)
Two(g, out, j) == IF j = 0 THEN Fail
    ELSE LET i == Find(g.avail, SubSeq(out, 1, j)) IN
         IF i = 0 THEN Two(g, out, j - 1)
         ELSE LET g2 == Use(g, i, j)  rest == SubSeq(out, j + 1, Len(out))  k == Find(g2.avail, rest)
              IN IF k = 0 THEN Two(g, out, j - 1) ELSE Use(g2, k, Len(rest))
Draw(g, out) == IF out = <<>> THEN g ELSE IF ~Known(g) THEN Fail
                ELSE LET i == Find(g.avail, out) IN IF i # 0 THEN Use(g, i, Len(out)) ELSE Two(g, out, Len(out) - 1)
\* a draw during which a seed was read: the first j bytes are the old generator's
RECURSIVE Seeded(_, _, _, _)
Seeded(g, n, out, j) ==
    IF j < 0 THEN Fail
    ELSE LET d == Draw(n, SubSeq(out, j + 1, Len(out))) IN
         IF (j = 0 \/ ~Known(g) \/ Known(Draw(g, SubSeq(out, 1, j)))) /\ Known(d) /\ g.since + j <= ReseedAfter THEN d ELSE Seeded(g, n, out, j - 1)
G(i) == IF i \in DOMAIN gens THEN gens[i] ELSE Fail
\* a generator seeded with the next unused bytes of another: the first place that explains what it returned
RECURSIVE Child(_, _, _)
Child(a, out, i) == IF i + SeedLen - 1 > Len(a) \/ i > Keep + 256 THEN 0
                    ELSE IF Find(Block(SubSeq(a, i, i + 31), SubSeq(a, i + 32, i + SeedLen - 1), 0), out) # 0 THEN i ELSE Child(a, out, i + 1)
\* many of the bytes drawn are not reported: afterwards nothing is known until the next seed
Bulk(g, n) == [Fail EXCEPT !.since = g.since + n]
RInit == l = 1 /\ gens = <<>> /\ bad = {}
Set(i, g) == gens' = (i :> g) @@ gens
RNext ==
    /\ l <= Len(Trace) /\ bad \cap Judged = {}
    /\ l' = l + 1
    /\ CASE Ev.e = "cfg" -> gens' = <<>> /\ bad' = bad
         [] Ev.e = "init" -> /\ bad' = bad \cup Tag(Len(Ev.seed) = SeedLen)
                             /\ Set(Ev.g, IF Len(Ev.seed) = SeedLen THEN Gen(Ev.seed) ELSE Fail)
         [] Ev.e = "from" ->
              IF Ev.seed # <<>>        \* seeded by the operating system after all
              THEN LET g == IF Len(Ev.seed) = SeedLen THEN Draw(Gen(Ev.seed), Ev.out) ELSE Fail IN bad' = bad \cup Tag(Known(g)) /\ Set(Ev.g, g)
              ELSE LET s == G(Ev.s)  i == Child(s.avail, Ev.out, 1) IN
                   IF i = 0 THEN bad' = bad \cup Tag(FALSE) /\ Set(Ev.g, Fail)
                   ELSE /\ bad' = bad
                        /\ gens' = (Ev.g :> Draw(Gen(SubSeq(s.avail, i, i + SeedLen - 1)), Ev.out)) @@ (Ev.s :> Use(s, i, SeedLen)) @@ gens
         [] Ev.e = "draw" ->
              LET g == G(Ev.g)
                  n == IF Ev.seed = <<>> THEN Draw(g, Ev.out) ELSE IF Len(Ev.seed) = SeedLen THEN Seeded(g, Gen(Ev.seed), Ev.out, Len(Ev.out)) ELSE Fail
              IN /\ bad' = bad \cup Tag(Known(n))
                 \* draws longer than half the cache are not counted; nothing draws that much in the allocator
                 /\ Set(Ev.g, IF Len(Ev.out) > 128 /\ Ev.seed = <<>> THEN [n EXCEPT !.since = g.since] ELSE n)
         [] Ev.e = "bulk" -> LET g == Bulk(G(Ev.g), Ev.gap) IN bad' = bad \cup Tag(g.since <= ReseedAfter) /\ Set(Ev.g, g)
         \* under one seed words do not repeat
         [] Ev.e = "words" -> bad' = bad \cup Tag(Ev.dup = 0 /\ Ev.n > 1000) /\ Set(Ev.g, Fail)
         \* so many bytes were drawn since the seed, none was skipped
         [] Ev.e = "skip" -> LET g == G(Ev.g)  pos == g.since + Ev.n IN
              /\ bad' = bad \cup Tag(pos <= ReseedAfter /\ (Ev.seed = <<>> \/ Len(Ev.seed) = SeedLen))
              /\ Set(Ev.g, IF Known(g) /\ Ev.seed = <<>> THEN LET n == Grow([g EXCEPT !.ctr = pos \div 64, !.avail = <<>>, !.since = pos])
                                                            IN [n EXCEPT !.avail = SubSeq(@, (pos % 64) + 1, Len(@))] ELSE Fail)
         \* every 16-bit value was drawn: all results occur equally often, none is out of range; a rejected value is drawn again by the same rule
         [] Ev.e = "u16" -> bad' = bad \cup Tag(Ev.lo = Ev.hi /\ Ev.lo > 0 /\ Ev.outside = 0 /\ Ev.redraw = 0) /\ UNCHANGED gens
         \* the number of 64-bit values that lead to some of the results
         [] Ev.e = "u64" -> bad' = bad \cup Tag(Ev.outside = 0 /\ Ev.redraw = 0) \cup Tag(Ev.mono # 1 \/ (Ev.none = 0 /\ \A i \in DOMAIN Ev.cnt : Ev.cnt[i] = Ev.cnt[1])) /\ UNCHANGED gens
         \* a failing seed is fatal
         [] Ev.e = "seedfail" -> bad' = bad \cup Tag(Ev.out = 1) /\ UNCHANGED gens
         [] Ev.e \in {"fatal", "crash", "hang", "die"} -> bad' = bad \cup {"DEATH"} /\ UNCHANGED gens
         [] OTHER -> UNCHANGED << gens, bad >>
    /\ (bad' = bad \/ PrintT(<< "CONTRADICTED", l, bad' \ bad >>))
RSpec == RInit /\ [][RNext]_<< l, gens, bad >>
Note == TLCSet(1, bad \cap Judged)
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = {}
=============================================================================
