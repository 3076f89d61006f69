---------------------------------- MODULE Mte ----------------------------------
(* Choice of the memory tags of one slab: Slots slots in a row, tags          *)
(* 0..MaxTag, 0 reserved for memory that nobody owns.  A tag is chosen at     *)
(* random among those that are neither reserved nor the last tag of the slot  *)
(* or of one of its neighbours; a released slot is tagged 0 and its last tag  *)
(* remembered; purging the slab empties the memory, the last tags stay.       *)
(* Holder(i) are the tags of all pointers ever returned for slot i since its  *)
(* last allocation but one: they must not open the slot now.                  *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Slots, MaxTag
VARIABLES last, mem, used, prev
vars == << last, mem, used, prev >>
S == 1..Slots
At(f, i) == IF i \in S THEN f[i] ELSE 0
Excluded(i) == {0, At(last, i - 1), At(last, i), At(last, i + 1)}
Init == last = [i \in S |-> 0] /\ mem = [i \in S |-> 0] /\ used = {} /\ prev = [i \in S |-> 0]
Alloc(i) == /\ i \notin used
            /\ \E t \in (0..MaxTag) \ Excluded(i) : last' = [last EXCEPT ![i] = t] /\ mem' = [mem EXCEPT ![i] = t]
            /\ used' = used \cup {i} /\ prev' = [prev EXCEPT ![i] = last[i]]
Free(i) == i \in used /\ used' = used \ {i} /\ mem' = [mem EXCEPT ![i] = 0] /\ UNCHANGED << last, prev >>
Purge == used = {} /\ mem' = [i \in S |-> 0] /\ UNCHANGED << last, used, prev >>
Next == Purge \/ \E i \in S : Alloc(i) \/ Free(i)
Spec == Init /\ [][Next]_vars
\* there is always a tag to choose
Choosable == \A i \in S : (0..MaxTag) \ Excluded(i) # {}
\* memory that nobody owns cannot be reached through any pointer ever returned; a block only through its own
Freed == \A i \in S \ used : mem[i] = 0
Owned == \A i \in used : mem[i] = last[i] /\ mem[i] # 0
\* the pointer to the last block of the slot does not reach the present one
Stale == \A i \in used : prev[i] # mem[i]
\* running off a block reaches a neighbour with another tag, and no pointer of a freed neighbour fits
Linear == \A i \in S : i + 1 \in S /\ i \in used /\ i + 1 \in used => mem[i] # mem[i + 1]
LinearStale == \A i \in S : \A j \in {i - 1, i + 1} \cap S : i \in used => last[j] # mem[i]
Inv == Choosable /\ Freed /\ Owned /\ Stale /\ Linear /\ LinearStale
=============================================================================
