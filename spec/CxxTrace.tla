------------------------------ MODULE CxxTrace ------------------------------
(* Trace validation of the C++ operators: blocks and releases are judged by   *)
(* Heap, the run of attempts and handler calls by the monitor of CxxNew.      *)
EXTENDS Heap, Json, IOUtils
VARIABLES l, n
P == INSTANCE CxxNew WITH MaxCalls <- 0, m <- n, pc <- "", env <- 0, pos <- 0, cur <- 0, avail <- FALSE, ptr <- FALSE
Trace == ndJsonDeserialize(IOEnv.TRACE)
Judged == LET j == ndJsonDeserialize(IOEnv.JUDGED) IN {j[i] : i \in DOMAIN j}
Refused == h.bad \cap Judged
Ev == Trace[l]
NextN == CASE Ev.e = "cfg" -> P!M0
           [] Ev.e = "nwb" -> P!MBegin(n, Ev.nothrow = 1, Ev.cur, Ev.avail = 1)
           [] Ev.e = "hnd" -> P!MHandler(n, Ev.i, Ev.cur, Ev.avail = 1, Ev.thrown)
           [] Ev.e = "al" /\ Ev.k = "new" -> P!MResult(n, Ev.ret)
           [] OTHER -> n
CtInit == Init /\ l = 1 /\ n = P!M0
CtNext == /\ l <= Len(Trace) /\ Refused = {}
          /\ n' = NextN
          /\ h' = LET y == IF Ev.e = "al" /\ Ev.k = "new" /\ Ev.ok = 0
                           \* nothing is left behind by the failed attempts
                           THEN EndOp(CloseSlabs(Bad(OpenSlabs(h), Tag(Unchanged(h), "C25"))))
                           ELSE Eff(h, Ev)
                  IN IF n'.bad THEN Bad(y, {"C25"}) ELSE y
          /\ l' = l + 1
          /\ (h'.bad = h.bad \/ PrintT(<< "CONTRADICTED", l, h'.bad \ h.bad >>))
CtSpec == CtInit /\ [][CtNext]_<< h, l, n >>
Note == TLCSet(1, Refused)
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ TLCGet(1) = {}
=============================================================================
