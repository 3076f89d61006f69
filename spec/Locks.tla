---------------------------------- MODULE Locks --------------------------------
(* Locks of the allocator, its calls as sequences of critical sections, and   *)
(* fork.  A section changes its component in two halves, between which the    *)
(* component is inconsistent.  A fork may happen at any moment; the forking   *)
(* thread takes every lock first.  In the child the other threads are gone,   *)
(* all locks are made anew, and the component states are what the fork saw.   *)
(* Guarantees: no deadlock; sections exclude each other; the child's          *)
(* components are consistent and it can go on with any call (C17, C18).       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Classes, Forks, OpsPer
R == "R"
Comp == {R} \cup Classes
VARIABLES owner,    \* component -> thread holding its lock, or 0
          half,     \* components inside a change
          prog,     \* thread -> remaining steps of its call
          left,     \* thread -> calls still to make
          alive, forks, child,
          order     \* the order in which the fork handlers take the locks
vars == << owner, half, prog, left, alive, forks, child, order >>

Sect(c) == << << "lock", c >>, << "begin", c >>, << "end", c >>, << "unlock", c >> >>
RECURSIVE Cat(_)
Cat(S) == IF S = <<>> THEN <<>> ELSE Head(S) \o Cat(Tail(S))
Seqs(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b]}
AnyOrder == CHOOSE f \in Seqs(Classes) : TRUE
\* the calls: small allocation or release; large allocation (guard size, registry); large release (registry, quarantine);
\* in-place shrink (lookup, quarantine, update); moves between kinds; trim and statistics visit every class
Calls == {Sect(c) : c \in Classes}
         \cup {Cat(<< Sect(R), Sect(R) >>), Cat(<< Sect(R), Sect(R), Sect(R) >>)}
         \cup {Cat(<< Sect(R), Sect(c), Sect(R), Sect(R) >>) : c \in Classes}
         \cup {Cat([i \in 1..Cardinality(Classes) |-> Sect(AnyOrder[i])]), Cat([i \in 1..Cardinality(Classes) |-> Sect(AnyOrder[i])] \o << Sect(R) >>)}
LockAll == [i \in DOMAIN order |-> << "lock", order[i] >>]
ForkCall == LockAll \o << << "fork", R >> >> \o [i \in DOMAIN order |-> << "unlock", order[i] >>]

Init == /\ owner = [c \in Comp |-> 0] /\ half = {} /\ prog = [t \in Threads |-> <<>>] /\ left = [t \in Threads |-> OpsPer] /\ alive = Threads
        /\ forks = Forks /\ child = FALSE /\ order \in Seqs(Comp)
Call(t) == /\ prog[t] = <<>> /\ left[t] > 0
           /\ \/ \E q \in Calls : prog' = [prog EXCEPT ![t] = q] /\ forks' = forks
              \/ forks > 0 /\ forks' = forks - 1 /\ prog' = [prog EXCEPT ![t] = ForkCall]
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED << owner, half, alive, child, order >>
Step(t) == /\ prog[t] # <<>>
           /\ LET s == Head(prog[t]) IN
              \/ s[1] = "lock" /\ owner[s[2]] = 0 /\ owner' = [owner EXCEPT ![s[2]] = t] /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED << half, alive, child >>
              \/ s[1] = "begin" /\ half' = half \cup {s[2]} /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED << owner, alive, child >>
              \/ s[1] = "end" /\ half' = half \ {s[2]} /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED << owner, alive, child >>
              \/ s[1] = "unlock" /\ owner' = [owner EXCEPT ![s[2]] = 0] /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED << half, alive, child >>
              \* seen from the parent ...
              \/ s[1] = "fork" /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED << owner, half, alive, child >>
              \* ... and from the child: the handlers make every lock anew
              \/ s[1] = "fork" /\ prog' = [q \in Threads |-> <<>>] /\ alive' = {t} /\ owner' = [c \in Comp |-> 0] /\ child' = TRUE /\ half' = half
           /\ UNCHANGED << forks, order >>
           /\ left' = IF alive' # alive THEN [q \in Threads |-> IF q = t THEN OpsPer ELSE 0] ELSE left
Done == (\A t \in alive : prog[t] = <<>> /\ left[t] = 0) /\ UNCHANGED vars
Next == Done \/ \E t \in alive : Call(t) \/ Step(t)
Spec == Init /\ [][Next]_vars

\* a component is in the middle of a change only while the thread changing it holds its lock
Excl == \A c \in half : owner[c] # 0 /\ Len(prog[owner[c]]) > 0 /\ << "end", c >> = Head(prog[owner[c]])
\* nothing is half done in the child when it begins
ChildWhole == child => \A c \in half : owner[c] \in alive
=============================================================================
