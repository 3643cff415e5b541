----------------------------- MODULE ReentTrace -----------------------------
(* Validation of programs whose threads call generated functions on objects of their own.      *)
(* A trace: built, says, and ev, one event per thread: acc, the conflicting pairs of accesses  *)
(* a race detector saw (none may be), and per call what it left behind, in the program and     *)
(* when the thread's calls run alone.                                                          *)
EXTENDS Reent, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Verdict(e) ==
  IF e.crash THEN "crash"
  ELSE IF ~RaceFree({e.acc[i] : i \in 1..Len(e.acc)}) THEN "race: two calls to different objects touch one place: " \o e.says
  ELSE IF e.got # e.alone THEN "alone: calls that overlap leave something else than calls one after the other"
  ELSE ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ bad' = Verdict(T.ev[l]) /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
