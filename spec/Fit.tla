--------------------------------- MODULE Fit ---------------------------------
(* Signals and the frames they stand in.                                                       *)
EXTENDS Layout
\* the greatest length with which a signal that starts at S.s fits (0: none)
Longest(S, dlc) == LET n == IF S.m THEN 8 * dlc - Lin(S.s) ELSE 8 * dlc - S.s IN IF n < 0 THEN 0 ELSE n
Good(S, dlc) == S.l <= 64 /\ Fits(S, dlc)
\* what must become of a document: a driver that compiles iff every signal is good
Compiles(msgs) == \A i \in 1..Len(msgs) : \A k \in 1..Len(msgs[i].sigs) : Good(msgs[i].sigs[k], msgs[i].dlc)
=============================================================================
