------------------------------ MODULE InitOnce ------------------------------
(* Closed specification of initialisation on demand: every thread takes an    *)
(* arena, looks whether the allocator is published, and otherwise takes the   *)
(* lock, looks again, builds the state in several steps, publishes it and     *)
(* makes the globals read-only.  The same steps are forced on the real code   *)
(* by stopping a thread at every synchronisation point of its first call.     *)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, NArena, Fields
VARIABLES pc, lock, built, published, readonly, inits, counter, arena, saw
vars == << pc, lock, built, published, readonly, inits, counter, arena, saw >>
None == 0
TypeOK == /\ pc \in [Threads -> {"start", "check", "lock", "recheck", "build", "publish", "seal", "unlock", "use", "done"}]
          /\ lock \in Threads \cup {None} /\ built \in 0..Fields /\ published \in BOOLEAN /\ readonly \in BOOLEAN /\ inits \in 0..2
          /\ counter \in Nat /\ arena \in [Threads -> 0..NArena] /\ saw \in [Threads -> 0..Fields]
Init == /\ pc = [t \in Threads |-> "start"] /\ lock = None /\ built = 0 /\ published = FALSE /\ readonly = FALSE /\ inits = 0
        /\ counter = 0 /\ arena = [t \in Threads |-> NArena] /\ saw = [t \in Threads |-> 0]
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Start(t) == Go(t, "start", "check") /\ arena' = [arena EXCEPT ![t] = counter % NArena] /\ counter' = counter + 1
            /\ UNCHANGED << lock, built, published, readonly, inits, saw >>
Check(t) == Go(t, "check", IF published THEN "use" ELSE "lock") /\ UNCHANGED << lock, built, published, readonly, inits, counter, arena, saw >>
Lock(t) == lock = None /\ Go(t, "lock", "recheck") /\ lock' = t /\ UNCHANGED << built, published, readonly, inits, counter, arena, saw >>
Recheck(t) == Go(t, "recheck", IF published THEN "unlock" ELSE "build") /\ inits' = inits + (IF published THEN 0 ELSE 1)
              /\ UNCHANGED << lock, built, published, readonly, counter, arena, saw >>
Build(t) == /\ pc[t] = "build" /\ ~readonly /\ built' = built + 1
            /\ pc' = [pc EXCEPT ![t] = IF built + 1 = Fields THEN "publish" ELSE "build"]
            /\ UNCHANGED << lock, published, readonly, inits, counter, arena, saw >>
Publish(t) == Go(t, "publish", "seal") /\ published' = TRUE /\ UNCHANGED << lock, built, readonly, inits, counter, arena, saw >>
Seal(t) == Go(t, "seal", "unlock") /\ readonly' = TRUE /\ UNCHANGED << lock, built, published, inits, counter, arena, saw >>
Unlock(t) == Go(t, "unlock", "use") /\ lock' = None /\ UNCHANGED << built, published, readonly, inits, counter, arena, saw >>
Use(t) == Go(t, "use", "done") /\ saw' = [saw EXCEPT ![t] = built] /\ UNCHANGED << lock, built, published, readonly, inits, counter, arena >>
Step(t) == Start(t) \/ Check(t) \/ Lock(t) \/ Recheck(t) \/ Build(t) \/ Publish(t) \/ Seal(t) \/ Unlock(t) \/ Use(t)
Next == \E t \in Threads : Step(t)
IoSpec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
Once == inits <= 1
Complete == \A t \in Threads : pc[t] = "done" => saw[t] = Fields
Quiet == (\A t \in Threads : pc[t] = "done") => /\ readonly /\ inits = 1
    /\ \A a \in 0..(NArena - 1) : Cardinality({t \in Threads : arena[t] = a}) = (Cardinality(Threads) + NArena - 1 - a) \div NArena
AllEnd == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
