----------------------------- MODULE DispatchMC -----------------------------
(* All sets of received identifiers over a small range, all frames.                            *)
EXTENDS Dispatch, TLC
CONSTANT N
VARIABLES set, x, done
vars == <<set, x, done>>
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE a \in s : \A b \in s : a <= b IN <<m>> \o Sorted(s \ {m})
Init == set = {} /\ x \in 0..(N + 1) /\ done = 0
\* sets are built in ascending order; every set is met exactly once per frame
Next == \E i \in (done + 1)..N : set' = set \cup {i} /\ done' = i /\ x' = x
Spec == Init /\ [][Next]_vars
TreeIsLookup == LET ids == Sorted(set) IN Eval(ids, 1, Len(ids) + 1, x) = Target(ids, x)
AtMostOne == LET ids == Sorted(set) IN Target(ids, x) = 0 \/ ids[Target(ids, x)] = x
=============================================================================
