------------------------------- MODULE Reent --------------------------------
(* Calls that overlap.  A call to a generated function reads the object it is given, works on  *)
(* temporaries and writes the object and the frame.  Threads (or a task and the interrupts     *)
(* that preempt it) each have objects of their own; their calls may be cut anywhere.  Without  *)
(* common temporaries every schedule ends as if the threads had run one after the other.       *)
EXTENDS Integers, Sequences, FiniteSets

\* a call's phases and who must own what it touches
Phases == <<"read", "work", "write">>
\* two accesses conflict when they meet at one place, one of them writes, and different threads make them
Conflict(a, b) == a.t # b.t /\ a.at = b.at /\ (a.w \/ b.w)
RaceFree(accesses) == \A a, b \in accesses : ~Conflict(a, b)
=============================================================================
