-------------------------------- MODULE SlabTour -------------------------------
(* Behaviours of Slab as operation sequences, printed by TLC's simulator and  *)
(* replayed on the real allocator.                                            *)
EXTENDS Slab
CONSTANT Depth
VARIABLES ops, phase
D(a, b) == IF a \ b = {} THEN << >> ELSE CHOOSE o \in a \ b : TRUE
TInit == Init1 /\ ops = <<>> /\ phase \in 0..2
\* the phases favour growing, shrinking or neither, so that slabs fill up and run empty
Grow == (phase # 1 \/ owned = {}) /\ Alloc /\ ops' = Append(ops, << "a", D(owned', owned) >>)
Shrink == phase # 0 /\ \E o \in owned : Release(o) /\ ops' = Append(ops, << "f", o >>)
TNext == /\ Len(ops) < Depth
         /\ \/ Grow /\ phase' = phase
            \/ Shrink /\ phase' = phase
            \/ Len(ops) % 7 = 6 /\ Trim /\ ops' = Append(ops, << "t", <<>> >>) /\ phase' \in 0..2
            \/ Len(ops) % 5 = 4 /\ phase' \in 0..2 /\ ops' = Append(ops, << "p", <<>> >>) /\ UNCHANGED << dvars, h >>
TSpec == TInit /\ [][TNext]_<< dvars, h, ops, phase >>
Done == Len(ops) < Depth \/ PrintT("TOUR " \o ToString(ops))
=============================================================================
