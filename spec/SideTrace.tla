------------------------------ MODULE SideTrace ------------------------------
(* Validation of programs with several generated drivers in them against Side.                 *)
(* A trace: built (did everything compile and link), says, dig (a digest of every object's     *)
(* memory at the start) and ev: own (the object the call was given, 0: none), obs (everything  *)
(* the call made observable), solo (the same for the object's own history run alone) and dig.  *)
EXTENDS Side, Json, TLC

Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>
T == Traces[tr]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1 /\ st = T.dig
        /\ bad = IF T.built THEN "" ELSE "build: " \o T.says
Verdict(e) ==
  IF e.crash THEN "crash"
  ELSE IF ~Frame(st, e.dig, e.own) THEN "frame: a call changed an object it was not given"
  ELSE IF e.obs # e.solo THEN "alone: a call answered differently than in a program of its own"
  ELSE ""
Next ==
  /\ bad = "" /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ bad' = Verdict(e)
     /\ l' = l + 1 /\ tr' = tr
     /\ st' = IF e.crash THEN st ELSE e.dig
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
