------------------------------- MODULE ReentMC ------------------------------
(* All schedules of N threads making Calls calls each, cut between any two phases.  The        *)
(* functions keep their temporary per call (Common = FALSE) or in one place (TRUE): with       *)
(* private temporaries every schedule is race free and gives every object its sequential       *)
(* content; a common one breaks both (ReentMC_common.cfg).                                     *)
EXTENDS Reent, TLC
CONSTANTS N, Calls, V, Common
VARIABLES pc, done, obj, tmp, frame, acc
vars == <<pc, done, obj, tmp, frame, acc>>
Th == 1..N
Place(t) == IF Common THEN 0 ELSE t        \* where the temporary of thread t's calls is
F(t, x) == (x + t) % V                     \* what a call of thread t computes

Init == /\ pc = [t \in Th |-> 1] /\ done = [t \in Th |-> 0]
        /\ obj = [t \in Th |-> 0] /\ frame = [t \in Th |-> <<>>]
        /\ tmp = [p \in 0..N |-> 0] /\ acc = {}
A(t, at, w) == [t |-> t, at |-> at, w |-> w]
Step(t) ==
  /\ done[t] < Calls
  /\ LET p == Place(t) IN
     CASE Phases[pc[t]] = "read" ->
            /\ tmp' = [tmp EXCEPT ![p] = obj[t]]
            /\ acc' = acc \cup {A(t, <<"obj", t>>, FALSE), A(t, <<"tmp", p>>, TRUE)}
            /\ UNCHANGED <<obj, frame, done>>
       [] Phases[pc[t]] = "work" ->
            /\ tmp' = [tmp EXCEPT ![p] = F(t, @)]
            /\ acc' = acc \cup {A(t, <<"tmp", p>>, TRUE)}
            /\ UNCHANGED <<obj, frame, done>>
       [] Phases[pc[t]] = "write" ->
            /\ obj' = [obj EXCEPT ![t] = tmp[p]]
            /\ frame' = [frame EXCEPT ![t] = Append(@, tmp[p])]
            /\ acc' = acc \cup {A(t, <<"tmp", p>>, FALSE), A(t, <<"obj", t>>, TRUE)}
            /\ done' = [done EXCEPT ![t] = @ + 1] /\ UNCHANGED tmp
  /\ pc' = [pc EXCEPT ![t] = (@ % Len(Phases)) + 1]
Next == \E t \in Th : Step(t)
Spec == Init /\ [][Next]_vars

RECURSIVE Alone(_, _, _)
Alone(t, x, n) == IF n = 0 THEN <<>> ELSE <<F(t, x)>> \o Alone(t, F(t, x), n - 1)
NoRace  == RaceFree(acc)
AsAlone == \A t \in Th : frame[t] = Alone(t, 0, done[t])
=============================================================================
