-------------------------------- MODULE FitMC --------------------------------
(* When a signal fits: the arithmetic rule (LastByte) against the set of its bits, and the     *)
(* longest signal for every start.                                                             *)
EXTENDS Fit
CONSTANTS MaxStart, MaxLen, MaxDlc
VARIABLES S, dlc
vars == <<S, dlc>>
Init == S \in [s : 0..MaxStart, l : 1..MaxLen, m : BOOLEAN] /\ dlc \in 1..MaxDlc
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RuleIsBits == Fits(S, dlc) <=> \A p \in Positions(S) : p < 8 * dlc
LongestFits == /\ S.l <= Longest(S, dlc) <=> Fits(S, dlc)
               /\ Longest(S, dlc) <= 8 * dlc
\* one more bit at the same place, or a shorter frame, never makes a signal fit
Monotone == ~Fits(S, dlc) => ~Fits([S EXCEPT !.l = S.l + 1], dlc) /\ (dlc > 1 => ~Fits(S, dlc - 1))
=============================================================================
