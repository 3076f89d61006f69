------------------------------ MODULE RegionTable ------------------------------
(* Design of the registry of large blocks: an open-addressing hash table that *)
(* probes downwards, deletes by moving later entries back, and doubles into   *)
(* the other of its two areas.  What its users rely on (C26): every live      *)
(* block is found with its value, nothing else is, searches end, and a failed *)
(* growth changes nothing.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization
CONSTANTS Keys,          \* blocks, each of them
          Homes,         \* at an address whose hash is one of these
          Total0, MaxTotal,
          Faults,        \* may system calls fail?
          Values,        \* do values change?
          Depth          \* 0, or the length of behaviours to print
VARIABLES area,          \* the two areas: position -> key (0: none), as far as they are accessible
          act, total, free,
          home, live,    \* key -> hash of its address; key -> value, for the live ones
           ops
vars == << area, act, total, free, home, live, ops >>
Pos(t) == 0..(t - 1)
Empty(t) == [i \in Pos(t) |-> << 0, 0 >>]
Home(k, t) == home[k] % t
Down(i, t) == IF i = 0 THEN t - 1 ELSE i - 1
Other == 1 - act

\* the first position at or below i that is empty or holds k; -1 if there is none
Probe(T, t, i, k) == LET F[n \in 0..t, j \in Pos(t)] == IF n = 0 THEN -1 ELSE IF T[j][1] \in {0, k} THEN j ELSE F[n - 1, Down(j, t)] IN F[t, i]
Find(k) == LET j == Probe(area[act], total, Home(k, total), k) IN IF j = -1 THEN << -1, -1 >> ELSE IF area[act][j][1] = k THEN area[act][j] ELSE << 0, 0 >>

RECURSIVE Rehash(_, _, _, _, _)
Rehash(S, n, i, D, t) == IF i = n THEN D ELSE IF S[i][1] = 0 THEN Rehash(S, n, i + 1, D, t)
                         ELSE Rehash(S, n, i + 1, [D EXCEPT ![Probe(D, t, Home(S[i][1], t), 0)] = S[i]], t)
Log(x) == ops' = IF Depth = 0 THEN <<>> ELSE Append(ops, x)

Insert(k, v) ==
    /\ k \notin DOMAIN live
    /\ \E hm \in Homes : home' = (k :> hm) @@ home
    /\ free * 4 >= total
    /\ LET T == area[act]  j == Probe(T, total, home'[k] % total, 0) IN area' = [area EXCEPT ![act] = [T EXCEPT ![j] = << k, v >>]]
    /\ free' = free - 1 /\ live' = (k :> v) @@ live
    /\ UNCHANGED << act, total >>
    /\ Log(<< "i", k, home'[k] >>)
\* growth and insertion are one step of the code; the model grows first and inserts at the next step
Grow ==
    /\ free * 4 < total /\ total * 2 <= MaxTotal
    /\ area' = [area EXCEPT ![Other] = Rehash(area[act], total, 0, [i \in Pos(total * 2) |-> IF i \in DOMAIN area[Other] THEN area[Other][i] ELSE << 0, 0 >>], total * 2),
                            ![act] = Empty(total)]
    /\ act' = Other /\ free' = free + total /\ total' = total * 2
    /\ UNCHANGED << home, live, ops >>
\* the new area cannot be made accessible: the insertion fails, nothing changes
GrowFails == Faults /\ free * 4 < total /\ UNCHANGED vars
\* at most so many entries can exist
Full == free * 4 < total /\ total * 2 > MaxTotal /\ UNCHANGED vars

RECURSIVE Back(_, _, _, _)
\* position j was emptied; i runs below it
Back(T, t, j, i) ==
    IF T[i][1] = 0 THEN T
    ELSE LET r == home[T[i][1]] % t IN
         IF (i <= r /\ r < j) \/ (r < j /\ j < i) \/ (j < i /\ i <= r) THEN Back(T, t, j, Down(i, t))
         ELSE Back([T EXCEPT ![j] = T[i], ![i] = << 0, 0 >>], t, i, Down(i, t))
Delete(k) ==
    /\ k \in DOMAIN live
    /\ LET j == Probe(area[act], total, Home(k, total), k) IN area' = [area EXCEPT ![act] = Back([@ EXCEPT ![j] = << 0, 0 >>], total, j, Down(j, total))]
    /\ free' = free + 1 /\ live' = [q \in DOMAIN live \ {k} |-> live[q]]
    /\ home' = [q \in DOMAIN home \ {k} |-> home[q]]
    /\ UNCHANGED << act, total >>
    /\ Log(<< "d", k, 0 >>)
Resize(k) ==
    /\ k \in DOMAIN live
    /\ LET j == Probe(area[act], total, Home(k, total), k) IN area' = [area EXCEPT ![act] = [@ EXCEPT ![j] = << k, 3 - @[2] >>]]
    /\ live' = [live EXCEPT ![k] = 3 - @]
    /\ UNCHANGED << act, total, free, home >>
    /\ Log(<< "r", k, live'[k] >>)

Init == /\ act = 0 /\ total = Total0 /\ free = Total0 /\ area = [a \in {0, 1} |-> IF a = 0 THEN Empty(Total0) ELSE <<>>]
        /\ home = <<>> /\ live = <<>> /\ ops = <<>>
\* the model checker explores everything; printed behaviours prefer a level of occupancy that changes now and then
Level == LET n == Len(ops) IN IF n < 60 THEN 12 ELSE IF n < 165 THEN 99 ELSE IF n < 240 THEN 50 ELSE 75
Steady == Len(ops) % 12 = 0 \/ Cardinality(DOMAIN live) >= Level
Up == Depth = 0 \/ Cardinality(DOMAIN live) <= Level
Downs == Depth = 0 \/ Steady
Next == /\ (Depth = 0 \/ Len(ops) < Depth)
        /\ \/ Up /\ \E k \in Keys \ DOMAIN live : (\A q \in Keys \ DOMAIN live : k <= q) /\ Insert(k, 1)
           \/ Grow \/ (Depth = 0 /\ (GrowFails \/ Full))
           \/ \E k \in (IF Depth = 0 \/ live = <<>> THEN DOMAIN live ELSE RandomSubset(1 + (Cardinality(DOMAIN live) \div 20), DOMAIN live)) : Downs /\ (Delete(k) \/ (Values /\ Resize(k)))
Spec == Init /\ [][Next]_vars

Exact == \A k \in Keys : k \in DOMAIN home => Find(k) = IF k \in DOMAIN live THEN << k, live[k] >> ELSE << 0, 0 >>
\* any address, live or not, wherever it hashes to: the search ends, and finds nothing that is not there
Ends == \E i \in Pos(total) : area[act][i][1] = 0
Counted == /\ free = total - Cardinality(DOMAIN live)
           /\ Cardinality({i \in Pos(total) : area[act][i][1] # 0}) = Cardinality(DOMAIN live)
Clean == \A i \in DOMAIN area[Other] : area[Other][i][1] = 0
Done == Depth = 0 \/ Len(ops) < Depth \/ PrintT("TOUR " \o ToString(ops))
\* blocks are interchangeable
View == << [i \in Pos(total) |-> IF area[act][i][1] = 0 THEN -1 ELSE home[area[act][i][1]] * 2 + area[act][i][2]], act, total, free, Exact >>
=============================================================================
