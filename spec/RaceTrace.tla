----------------------------- MODULE RaceTrace -----------------------------
(* The discipline that makes Heap's atomic steps possible: whatever the       *)
(* threads do, each location of the allocator's state that several threads    *)
(* use, and one of them changes, is always used under one common lock (then   *)
(* no schedule can lose an update).  A location belongs to its first user     *)
(* until another thread uses it; from then on `c` are the locks held at every *)
(* use.  Events: acc(t thread, a location, w written, l locks held); the      *)
(* recorder leaves out repetitions that cannot change the state.              *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
VARIABLES l, loc, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ids == {Trace[i].a : i \in {j \in DOMAIN Trace : Trace[j].e = "acc"}}
None == [t |-> -1 + 1000, sh |-> FALSE, w |-> FALSE, c |-> {}]
Locks(ev) == {ev.l[i] : i \in DOMAIN ev.l}
After(r, ev) ==
    IF r.t = 999 THEN [t |-> ev.t, sh |-> FALSE, w |-> FALSE, c |-> {}]
    ELSE IF ~r.sh /\ r.t = ev.t THEN r
    ELSE [r EXCEPT !.sh = TRUE, !.w = @ \/ ev.w = 1, !.c = IF r.sh THEN @ \cap Locks(ev) ELSE Locks(ev)]
Racy(r) == r.sh /\ r.w /\ r.c = {}
Step(s, ev) == IF ev.e = "cfg" THEN [s EXCEPT !.loc = [i \in DOMAIN s.loc |-> None], !.n = @ + 1]
               ELSE IF s.bad THEN s
               ELSE IF ev.e \in {"crash", "fatal", "hang", "die"} THEN [s EXCEPT !.bad = TRUE, !.n = @ + 1]
               ELSE IF ev.e # "acc" THEN [s EXCEPT !.n = @ + 1]
               ELSE LET r == After(s.loc[ev.a], ev) IN [loc |-> [s.loc EXCEPT ![ev.a] = r], n |-> s.n + 1, bad |-> Racy(r)]
Init == l = 1 /\ loc = [i \in Ids |-> None] /\ bad = FALSE
Batch == 64
UpTo(i) == IF i + Batch - 1 < Len(Trace) THEN i + Batch - 1 ELSE Len(Trace)
Next == /\ l <= Len(Trace) /\ ~bad
        /\ LET s == FoldLeft(Step, [loc |-> loc, n |-> 0, bad |-> FALSE], SubSeq(Trace, l, UpTo(l)))
           IN /\ loc' = s.loc /\ l' = l + s.n /\ bad' = s.bad
              /\ (~s.bad \/ PrintT(<< "CONTRADICTED", l + s.n - 1, {IF Trace[l + s.n - 1].e = "acc" THEN "C17" ELSE "DEATH"} >>))
Spec == Init /\ [][Next]_<< l, loc, bad >>
Note == TLCSet(2, l) /\ TLCSet(1, bad)
TraceAccepted == TLCGet(2) = Len(Trace) + 1 /\ ~TLCGet(1)
=============================================================================
