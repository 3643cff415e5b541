------------------------------ MODULE LinkGen ------------------------------
(* Behaviours of Link as schedules for the real driver: S n = pack frame n, R n = unpack frame *)
(* n (-2: a damaged or foreign frame).                                                        *)
EXTENDS Link, Json, TLC
CONSTANT H
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < H
         /\ \/ Send /\ hist' = Append(hist, <<"S", sent>>)
            \/ Receive /\ hist' = Append(hist, <<"R", last'>>)
            \/ (Lose \/ Dup \/ Corrupt) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = H => PrintT("@@" \o ToJson(hist))
=============================================================================
