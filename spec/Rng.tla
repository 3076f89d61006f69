-------------------------------- MODULE Rng ---------------------------------
(* The cache of a generator: Cache keystream bytes are computed at a time,    *)
(* draws take them from index on, draws of more than half a cache take fresh  *)
(* keystream directly, and a new seed is taken when a refill finds that       *)
(* Reseed bytes went through the cache.  used: keystream positions returned   *)
(* under the present seed.                                                    *)
EXTENDS Naturals, FiniteSets
CONSTANTS Cache, Reseed, Word, MaxFront
VARIABLES index,    \* next byte of the cache; Cache when it is used up
          base,     \* keystream position of the cache's first byte
          front,    \* next keystream position
          count,    \* bytes computed for the cache since the last seed
          since,    \* bytes small draws returned since the last seed
          used, twice
v == << index, base, front, count, since, used, twice >>
Init == index = Cache /\ base = 0 /\ front = 0 /\ count = 0 /\ since = 0 /\ used = {} /\ twice = FALSE
St == [index |-> index, base |-> base, front |-> front, count |-> count, since |-> since, used |-> used, twice |-> twice]
Set(s) == /\ index' = s.index /\ base' = s.base /\ front' = s.front /\ count' = s.count
          /\ since' = s.since /\ used' = s.used /\ twice' = s.twice
Seed(s) == [s EXCEPT !.index = Cache, !.front = 0, !.count = 0, !.since = 0, !.used = {}]
Refill(s) == LET t == IF s.count >= Reseed THEN Seed(s) ELSE s
             IN [t EXCEPT !.base = t.front, !.front = t.front + Cache, !.index = 0, !.count = @ + Cache]
Take(s, n) == LET P == (s.base + s.index)..(s.base + s.index + n - 1)
              IN [s EXCEPT !.index = @ + n, !.since = @ + n, !.used = @ \cup P, !.twice = @ \/ P \cap s.used # {}]
\* a word is never split; what is left of the cache is skipped
WordDraw(n) == Set(LET s == IF Cache - index < n THEN Refill(St) ELSE St IN Take(s, n))
RECURSIVE Bytes(_, _)
Bytes(s, n) == IF n = 0 THEN s
               ELSE LET t == IF s.index = Cache THEN Refill(s) ELSE s
                        k == IF n < Cache - t.index THEN n ELSE Cache - t.index
                    IN Bytes(Take(t, k), n - k)
Large(n) == LET P == front..(front + n - 1)
            IN Set([St EXCEPT !.front = @ + n, !.used = @ \cup P, !.twice = @ \/ P \cap used # {}])
Next == /\ front <= MaxFront
        /\ \/ WordDraw(1) \/ WordDraw(Word)
           \/ \E n \in 1..(Cache \div 2) : Set(Bytes(St, n))
           \/ \E n \in {Cache \div 2 + 1, Cache} : Large(n)
Spec == Init /\ [][Next]_v
\* no byte of the keystream is returned twice
Fresh == ~twice
\* at most Reseed bytes between two seeds
Reseeded == since <= Reseed
InCache == index <= Cache /\ (index < Cache => base + Cache <= front)
=============================================================================
