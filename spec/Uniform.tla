------------------------------- MODULE Uniform ------------------------------
(* The range reduction of the generators for every bound, at Width bits: a    *)
(* raw value is multiplied by the bound, the high half is the result, and the *)
(* raw value is rejected when the low half is below 2^Width mod bound.  All   *)
(* raw values are fed one after the other; hist counts the results.           *)
EXTENDS Naturals, FiniteSets
CONSTANT Width
M == 2 ^ Width
VARIABLES bound, raw, hist, rejected
v == << bound, raw, hist, rejected >>
\* the threshold is only computed when the low half is below the bound
Low(r, b) == (r * b) % M
High(r, b) == (r * b) \div M
Rejected(r, b) == Low(r, b) < b /\ Low(r, b) < (M - b) % b
Init == bound \in 1..(M - 1) /\ raw = 0 /\ hist = [k \in 0..(bound - 1) |-> 0] /\ rejected = 0
Next == /\ raw < M /\ raw' = raw + 1 /\ bound' = bound
        /\ IF Rejected(raw, bound) THEN rejected' = rejected + 1 /\ hist' = hist
           ELSE hist' = [hist EXCEPT ![High(raw, bound)] = @ + 1] /\ rejected' = rejected
Spec == Init /\ [][Next]_v
InRange == raw < M => High(raw, bound) < bound
\* every result is equally likely, and fewer values are rejected than there are results
Even == raw = M => (\A k \in DOMAIN hist : hist[k] = M \div bound) /\ rejected = M % bound
\* the values of a result are neighbours and only the first of them can be rejected
Shape == raw < M - 1 => /\ High(raw, bound) <= High(raw + 1, bound)
                        /\ (Rejected(raw + 1, bound) => High(raw, bound) < High(raw + 1, bound))
=============================================================================
