----------------------------- MODULE HeapTrace -----------------------------
(* Trace validation: is the recorded execution of the real allocator a        *)
(* behaviour of Heap in which none of the judged properties is contradicted?  *)
(* Environment: TRACE (ndJson file), JUDGED (property ids, one per line),     *)
(* BATCH (how many events one step of TLC takes; a step ends early at the     *)
(* first contradiction).                                                      *)
EXTENDS Heap, SequencesExt, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Judged == LET j == ndJsonDeserialize(IOEnv.JUDGED) IN {j[i] : i \in DOMAIN j}
Batch == atoi(IOEnv.BATCH)
Refused(x) == x.bad \cap Judged
\* the state after the next event, unless it was refused before; n: events taken
Take(acc, ev) == IF Refused(acc.x) # {} THEN acc ELSE [x |-> Eff(acc.x, ev), n |-> acc.n + 1]
UpTo(i) == IF i + Batch - 1 < Len(Trace) THEN i + Batch - 1 ELSE Len(Trace)
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ Refused(h) = {}
             /\ LET r == FoldLeft(Take, [x |-> h, n |-> 0], SubSeq(Trace, l, UpTo(l)))
                IN /\ h' = r.x /\ l' = l + r.n
                   /\ (Refused(r.x) = {} \/ PrintT(<< "CONTRADICTED", l + r.n - 1, Refused(r.x) >>))
TraceSpec == TraceInit /\ [][TraceNext]_<< h, l >>
\* every event was consumed and no judged property was contradicted
Note == TLCSet(1, Refused(h)) /\ TLCSet(2, l)
TraceAccepted == TLCGet(2) = Len(Trace) + 1 /\ TLCGet(1) = {}
=============================================================================
