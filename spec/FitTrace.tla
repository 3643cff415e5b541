------------------------------ MODULE FitTrace ------------------------------
(* C15.  A trace: the accepted messages of one document (start bits above 10^6 as 10^6), how   *)
(* the generator ended and whether the generated driver compiles.                              *)
EXTENDS Fit, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Next == /\ l = 1 /\ l' = 2 /\ tr' = tr
        /\ bad' = IF ~T.ended THEN "generation does not end normally"
                  ELSE IF T.builds /\ ~Compiles(T.msgs) THEN "a driver with a signal outside its frame compiles"
                  ELSE IF ~T.builds /\ Compiles(T.msgs) THEN "a driver whose signals all fit does not compile"
                  ELSE ""
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
