------------------------------ MODULE ScanGen ------------------------------
(* Long documents for the real parser: first the kind of the next line is drawn, then the line. *)
EXTENDS ScanDocs
VARIABLE kd
GInit == Init /\ kd = ""
GNext == /\ Len(doc) < MaxLen
         /\ IF kd = "" THEN kd' \in Kinds /\ UNCHANGED doc
            ELSE LET C == Allowed(doc, LettersOf({kd})) IN
                 /\ kd' = ""
                 /\ IF C = {} THEN UNCHANGED doc ELSE \E x \in C : doc' = Append(doc, x)
GSpec == GInit /\ [][GNext]_<<doc, kd>>
GEmit == kd = "" => Emit
=============================================================================
