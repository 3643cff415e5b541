----------------------------- MODULE BuildTrace -----------------------------
(* C20.  A trace: steps of builds made with a real compiler and linker: unit compilations      *)
(* (unit, version of its source, version of the core header in reach) and links of complete    *)
(* packages with their clients, each with the outcome.                                         *)
EXTENDS Build, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, good, bad
vars == <<tr, l, good, bad>>
T == Traces[tr]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ good = TRUE /\ bad = ""
Verdict(e) ==
  IF e.op = "unit" THEN
    IF e.ok /\ ~Compiles(e.unit, e.src, e.hdr) THEN "sources of different versions compile"
    ELSE IF ~e.ok /\ Compiles(e.unit, e.src, e.hdr) THEN "a file of a complete package does not compile"
    ELSE ""
  \* all units of the package compiled: then it links
  ELSE IF good /\ ~e.ok THEN "a complete package does not link" ELSE ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] IN
           /\ bad' = Verdict(e)
           /\ good' = IF e.op = "unit" THEN good /\ e.ok ELSE TRUE
        /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
