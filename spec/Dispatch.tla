------------------------------ MODULE Dispatch ------------------------------
(* A receive function.  What it must do (Target) and the design the generator uses: a tree of  *)
(* conditions over the identifiers in ascending order (Eval); both agree (DispatchMC).         *)
EXTENDS Integers, Sequences, FiniteSets

\* required: the position of the message with the identifier, or 0
Target(ids, x) == LET c == {i \in 1..Len(ids) : ids[i] = x} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE

\* binary tree over ids[lo..hi-1] (ascending): an inner node asks for the lower half
RECURSIVE Eval(_, _, _, _)
Eval(ids, lo, hi, x) ==
  IF hi - lo = 0 THEN 0
  ELSE IF hi - lo = 1 THEN IF x = ids[lo] THEN lo ELSE 0
  ELSE LET half == (hi - lo) \div 2
           below == IF half = 1 THEN x = ids[lo] ELSE x >= ids[lo] /\ x < ids[lo + half]
       IN IF below THEN Eval(ids, lo, lo + half, x) ELSE Eval(ids, lo + half, hi, x)
=============================================================================
