----------------------------- MODULE ConcTrace -----------------------------
(* Trace validation of executions with several threads.  The trace holds, for *)
(* every call of a thread, its beginning (b), the system calls it makes and   *)
(* its result, as they were interleaved.  A call takes effect in one atomic   *)
(* step (a moving realloc and a trim in several) somewhere between its        *)
(* beginning and its result: TLC looks for an order of these steps in which   *)
(* Heap explains every result and every later observation.  The execution is  *)
(* linearizable when there is one.                                            *)
(* A fork copies the abstract state; calls pending in other threads vanish in *)
(* the child and go on in the parent.                                         *)
EXTENDS Heap, Json, IOUtils
VARIABLES l, pend, pst
Trace == ndJsonDeserialize(IOEnv.TRACE)
Judged == LET j == ndJsonDeserialize(IOEnv.JUDGED) IN {j[i] : i \in DOMAIN j}
Refused(x) == x.bad \cap Judged
N == Len(Trace)

Results == {"al", "fr", "re", "tr", "us", "os", "endfork"}
Thr(ev) == IF "t" \in DOMAIN ev THEN ev.t ELSE 0
\* the end of a child forked at m
RECURSIVE ForkEnd(_, _)
ForkEnd(m, d) == IF m > N THEN N ELSE IF Trace[m].e = "endfork" THEN IF d = 1 THEN m ELSE ForkEnd(m + 1, d - 1)
                 ELSE ForkEnd(m + 1, IF Trace[m].e = "fork" THEN d + 1 ELSE d)
RECURSIVE ResFrom(_, _)
\* the result of the call of thread t that began before m
ResFrom(m, t) == IF m > N \/ Trace[m].e \in {"cfg", "end", "fatal", "crash", "die", "hang"} THEN 0
                 ELSE IF Trace[m].e \in Results /\ Thr(Trace[m]) = t THEN m
                 ELSE IF Trace[m].e = "fork" THEN (IF Trace[m].t = t THEN 0 ELSE ResFrom(ForkEnd(m, 0) + 1, t)) ELSE ResFrom(m + 1, t)
RECURSIVE SysOf(_, _, _)
SysOf(a, m, t) == IF a >= m THEN <<>> ELSE IF Trace[a].e = "sys" /\ Thr(Trace[a]) = t THEN << [at |-> a] @@ Trace[a] >> \o SysOf(a + 1, m, t)
                  ELSE IF Trace[a].e = "fork" THEN SysOf(ForkEnd(a, 0) + 1, m, t) ELSE SysOf(a + 1, m, t)
\* everything about the call that begins at i: its result and its system calls
Ops == [i \in {j \in 1..N : Trace[j].e = "b"} |-> LET t == Trace[i].t  m == ResFrom(i + 1, t) IN [m |-> m, sys |-> IF m = 0 THEN <<>> ELSE SysOf(i + 1, m, t)]]

Tmp == 1000000
ApplySys(x, S) == FoldS(DoSysInit, x, S)
\* the first call sets everything up in a step of its own, which ends when the globals become read-only
InitIdx(o) == {i \in DOMAIN o.sys : o.sys[i].c = "ro" /\ o.sys[i].s = -2}
IsInit(o) == InitIdx(o) # {}
InitLen(o) == CHOOSE i \in InitIdx(o) : \A j \in InitIdx(o) : i <= j
AtMeta(x, e) == e.s = -1 /\ x.meta.up /\ e.pg >= x.meta.a /\ e.pg < x.meta.b
Moves(o) == LET ev == Trace[o.m] IN ev.e = "re" /\ ev.ok = 1 /\ ev.mv = 1 /\ \A i \in DOMAIN o.sys : o.sys[i].c # "rmfrom"
RECURSIVE Regs(_, _)
Regs(S, seen) == IF S = <<>> THEN <<>> ELSE IF Head(S).s \in seen \/ Head(S).err # 0 THEN Regs(Tail(S), seen) ELSE << Head(S).s >> \o Regs(Tail(S), seen \cup {Head(S).s})
NSteps1(o) == LET ev == Trace[o.m] IN
    CASE ev.e = "endfork" -> 0
      [] ev.e = "tr" -> 1 + Len(Regs(o.sys, {}))
      [] Moves(o) -> IF ev.ol = 1 THEN 3 ELSE 2
      [] ev.e = "fr" -> IF ev.ol = 1 THEN 2 ELSE 1
      [] OTHER -> 1
NSteps(o) == NSteps1(o) + IF IsInit(o) THEN 1 ELSE 0
\* the tagging operations of the two halves of a realloc
Zt(x, ev, n) == IF x.cfg.mte = 0 THEN <<>> ELSE LET k == IF ev.s >= 0 THEN 1 ELSE 0 IN IF n = 1 THEN SubSeq(ev.zt, 1, k) ELSE SubSeq(ev.zt, k + 1, Len(ev.zt))
\* the n-th step of call o
StepOf1(x, o, n) ==
    LET ev == Trace[o.m] IN
    IF ev.e = "tr" THEN
        LET R == Regs(o.sys, {}) IN
        IF n <= Len(R) THEN LET y == CloseSlabs(ApplySys(x, SelectSeq(o.sys, LAMBDA e : e.s = R[n]))) IN [y EXCEPT !.op = [Op0 EXCEPT !.started = TRUE]]
        ELSE Bad(x, Tag(ev.ret = 2 \/ (ev.ret \in {0, 1} /\ (ev.ret = 1) = (R # <<>>)), "C14") \cup SealOk(ev))
    ELSE IF Moves(o) THEN
        LET first(e) == e.c \in {"map", "maprw", "rw"} \/ AtMeta(x, e) IN
        LET rest(y) == ApplySys(y, SelectSeq(o.sys, LAMBDA e : ~first(e)))
            moved(y) == Bad([y EXCEPT !.live = (ev.id :> y.live[ev.id + Tmp]) @@ Rm(@, ev.id + Tmp)], Tags(ev.pre = ev.want, {"C05"}) \cup Tags(ev.z2 = -1 \/ x.cfg.zero = 0, {"C05", "C04"}))
        IN IF n = 1 THEN Eff(ApplySys(x, SelectSeq(o.sys, first)), [e |-> "al", id |-> ev.id + Tmp, k |-> "realloc", z |-> -1, ret |-> 0, bal |-> 0, zt |-> Zt(x, ev, 1)] @@ ev)
           ELSE IF ev.ol = 0 THEN moved(Eff(rest(x), [e |-> "fr", k |-> "sized", mo |-> 0, zt |-> Zt(x, ev, 2)] @@ ev))
           ELSE IF n = 2 THEN moved(DoUnlink(x, ev))
           ELSE DoRetire(rest(x), ev)
    ELSE IF ev.e = "fr" /\ ev.ol = 1 THEN IF n = 1 THEN DoUnlink(x, ev) ELSE DoRetire(ApplySys(x, o.sys), ev)
    ELSE Eff(ApplySys(x, o.sys), IF ev.e = "fr" THEN [mo |-> 0] @@ ev ELSE ev)    \* the released slot may have been handed out again
StepOf(x, o, n) ==
    IF ~IsInit(o) THEN StepOf1(x, o, n)
    ELSE LET k == InitLen(o) IN
         IF n = 1 THEN LET y == ApplySys(x, SubSeq(o.sys, 1, k)) IN [Bad(y, Tag(Inited(y) /\ y.maps = y.acct /\ ~x.meta.up, "C27")) EXCEPT !.op = [Op0 EXCEPT !.started = TRUE]]
         ELSE StepOf1(x, [o EXCEPT !.sys = SubSeq(@, k + 1, Len(@))], n - 1)

CInit == Init /\ l = 1 /\ pend = <<>> /\ pst = <<>>
Ev == Trace[l]
Pending(t) == t \in DOMAIN pend
\* events at which the order of the pending steps may matter
Visible == Ev.e \notin {"b", "sys", "q", "rnd", "fkb", "lk"}
\* calls interrupted by a fork leave unmapped what they unmapped before
InChild(x) == LET gone == UNION {LET o == Ops[pend[t].i]  q == SelectSeq(o.sys, LAMBDA e : e.at < l /\ e.err = 0 /\ e.s = -1 /\ e.c \in {"unmap", "rmfrom"})
                                 IN IF t = Ev.t \/ o.m = 0 \/ pend[t].n = NSteps(o) THEN {} ELSE {<< q[i].pg, q[i].pg + q[i].n >> : i \in DOMAIN q} : t \in DOMAIN pend}
                  m == SubAll(x.maps, gone)
              IN [x EXCEPT !.maps = m, !.acct = m]
Consume ==
    /\ l' = l + 1
    /\ CASE Ev.e = "cfg" -> h' = [Eff(h, Ev) EXCEPT !.bad = {}] /\ pend' = <<>> /\ pst' = <<>>
         [] Ev.e = "b" /\ Ev.t # 0 -> pend' = (Ev.t :> [i |-> l, n |-> 0]) @@ pend /\ UNCHANGED << h, pst >>
         [] Ev.e = "fork" -> h' = InChild(Eff(h, Ev)) /\ pend' = <<>> /\ pst' = Append(pst, Rm(pend, Ev.t))
         [] Ev.e = "endfork" /\ pst # <<>> -> h' = Eff(h, Ev) /\ pend' = pst[Len(pst)] /\ pst' = SubSeq(pst, 1, Len(pst) - 1)
         [] Ev.e = "sys" /\ Thr(Ev) # 0 /\ Pending(Ev.t) -> UNCHANGED << h, pend, pst >>
         [] Ev.e \in Results /\ Thr(Ev) # 0 /\ Pending(Ev.t) /\ Ops[pend[Ev.t].i].m = l ->
                pend[Ev.t].n = NSteps(Ops[pend[Ev.t].i]) /\ pend' = Rm(pend, Ev.t) /\ UNCHANGED << h, pst >>
         \* in a child forked while other calls were under way their pages may be in between
         [] Ev.e = "held" /\ pst # <<>> -> UNCHANGED << h, pend, pst >>
         [] OTHER -> h' = Eff(h, Ev) /\ UNCHANGED << pend, pst >>
Linearize(t) ==
    /\ Visible /\ Pending(t)
    /\ LET o == Ops[pend[t].i] IN
       /\ o.m # 0 /\ pend[t].n < NSteps(o)
       /\ h' = StepOf(h, o, pend[t].n + 1)
    /\ pend' = [pend EXCEPT ![t].n = @ + 1] /\ UNCHANGED << l, pst >>
CNext == /\ l <= N /\ Refused(h) = {}
         /\ (Consume \/ \E t \in DOMAIN pend : Linearize(t))
CSpec == CInit /\ [][CNext]_<< h, l, pend, pst >>
\* registers: 1 farthest event reached, 2 tags of a refusal there
Note == LET bad == Refused(h) IN
        IF bad = {} THEN (IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE) /\ (IF l = N + 1 THEN TLCSet("exit", TRUE) ELSE TRUE)
        ELSE (IF l >= TLCGet(2)[1] THEN TLCSet(2, << l, bad >>) ELSE TRUE)
ASSUME TLCSet(1, 0) /\ TLCSet(2, << 0, {} >>)
TraceAccepted == IF TLCGet(1) = N + 1 THEN TRUE
                 ELSE PrintT(<< "CONTRADICTED", TLCGet(1), IF TLCGet(2)[2] = {} THEN {"DEATH"} ELSE TLCGet(2)[2] >>) /\ FALSE
=============================================================================
