------------------------------- MODULE CxxNew -------------------------------
(* The out-of-memory protocol of operator new.  A call is a run of attempts;  *)
(* after a failed attempt the handler that is installed at that moment is     *)
(* called; it may return, install another handler, remove the handler, make   *)
(* memory available or throw.  The monitor M below says which events a call   *)
(* may produce.  The closed specification explores every environment (form of *)
(* the call, handler installed first, behaviour of up to MaxCalls handler     *)
(* calls) with the intended loop, checks the monitor on it, and prints every  *)
(* environment so that the real operators are run in all of them.             *)
EXTENDS Naturals, Sequences, TLC
CONSTANT MaxCalls

(* ------------------------------------------------------------ monitor ---- *)
\* idle; nothrow: form of the call; cur: installed handler; avail: the next attempt succeeds; thrown: what the last handler threw
M0 == [idle |-> TRUE, nothrow |-> FALSE, cur |-> 0, avail |-> TRUE, thrown |-> 0, calls |-> 0, bad |-> FALSE]
Mark(m, ok) == [m EXCEPT !.bad = @ \/ ~ok]
MBegin(m, nothrow, cur, avail) == Mark([M0 EXCEPT !.idle = FALSE, !.nothrow = nothrow, !.cur = cur, !.avail = avail], m.idle)
\* handler i is called; afterwards cur is installed, memory is available or not; it threw nothing (0), bad_alloc (1) or something else (2)
MHandler(m, i, cur, avail, thrown) ==
    Mark([m EXCEPT !.cur = cur, !.avail = avail, !.thrown = thrown, !.calls = @ + 1],
         /\ ~m.idle
         /\ ~m.avail                  \* only after a failed attempt
         /\ i = m.cur /\ i # 0        \* the handler installed now, not an earlier one
         /\ m.thrown = 0)             \* an exception ends the call
\* the call ends: 0 a block, 1 null, 2 bad_alloc, 3 another exception
MResult(m, out) ==
    Mark([m EXCEPT !.idle = TRUE],
         /\ ~m.idle
         /\ CASE out = 0 -> m.avail /\ m.thrown = 0
              [] out = 1 -> m.nothrow /\ ~(m.avail /\ m.thrown = 0) /\ (m.cur = 0 \/ m.thrown = 1)
              [] out = 2 -> ~m.nothrow /\ ~(m.avail /\ m.thrown = 0) /\ (m.cur = 0 \/ m.thrown = 1)
              [] out = 3 -> m.thrown = 2 /\ ~m.nothrow)

(* ------------------------------------------------------------ closed specification *)
\* behaviours of a handler call: returns, installs the other handler, removes the handler, throws bad_alloc, a class derived from it, something else
Acts == {"r", "s", "o", "b", "d", "x"}
VARIABLES m, pc, env, pos, cur, avail, ptr
vars == << m, pc, env, pos, cur, avail, ptr >>
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE Seqs(n - 1) \cup {<< a >> \o s : a \in Acts, s \in Seqs(n - 1)}
\* behaviours after an exception or the removal never happen; after the last one the handler removes itself
Useful(s) == \A i \in 1..Len(s) : s[i] \in {"o", "b", "d", "x"} => i = Len(s)
Envs == [nothrow : BOOLEAN, h0 : {0, 1, 2}, at : 0..MaxCalls, script : {s \in Seqs(MaxCalls) : Useful(s)}]
\* nothrow forms end the process when a handler throws something else
Init0 == /\ env \in {e \in Envs : /\ (e.h0 = 0 => e.script = <<>> /\ e.at = 0) /\ e.at <= Len(e.script)
                                   /\ ~(e.nothrow /\ \E i \in DOMAIN e.script : e.script[i] = "x")}
         /\ m = MBegin(M0, env.nothrow, env.h0, FALSE)
         /\ pc = "try" /\ pos = 1 /\ cur = env.h0 /\ avail = FALSE /\ ptr = FALSE
Act == IF pos <= Len(env.script) THEN env.script[pos] ELSE "o"
Cur2 == CASE Act = "s" -> 3 - cur [] Act = "o" -> 0 [] OTHER -> cur
Thrown == CASE Act \in {"b", "d"} -> 1 [] Act = "x" -> 2 [] OTHER -> 0
Avail2 == avail \/ (env.at # 0 /\ pos = env.at)
Try == /\ pc = "try"
       /\ IF avail THEN pc' = "ok" ELSE IF cur = 0 THEN pc' = "fail" ELSE pc' = "call"
       /\ UNCHANGED << m, env, pos, cur, avail, ptr >>
Call == /\ pc = "call"
        /\ m' = MHandler(m, cur, Cur2, Avail2, Thrown)
        /\ cur' = Cur2 /\ avail' = Avail2 /\ pos' = pos + 1
        /\ pc' = CASE Thrown = 1 -> "fail" [] Thrown = 2 -> "other" [] OTHER -> "try"
        /\ UNCHANGED << env, ptr >>
Out == CASE pc = "ok" -> 0 [] pc = "fail" -> IF env.nothrow THEN 1 ELSE 2 [] OTHER -> 3
End == /\ pc \in {"ok", "fail", "other"}
       /\ m' = MResult(m, Out) /\ pc' = "done"
       /\ PrintT(<< "ENV", env.nothrow, env.h0, env.at, env.script >>)
       /\ UNCHANGED << env, pos, cur, avail, ptr >>
Next0 == Try \/ Call \/ End
CxxSpec == Init0 /\ [][Next0]_vars /\ WF_vars(Next0)
Protocol == ~m.bad
Terminates == <>(pc = "done")
\* the forms never mix: null only from nothrow forms, exceptions only from the others
Forms == pc = "done" => m.idle
=============================================================================
