---------------------------- MODULE DefinedTrace ----------------------------
(* Executions of generated code under instrumentation which ends the program at the first      *)
(* undefined operation and at the first access outside an object (every struct and every frame *)
(* is an object of exactly its size).  Such an end is a violation when the call was legal.     *)
EXTENDS Defined, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>
T == Traces[tr]
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""
        /\ st = [i \in 1..Len(T.msgs) |-> [k \in 1..3 |-> [phys |-> <<>>, wit |-> <<>>]]]
Legal(e) ==
  LET M == T.msgs[e.m] IN
  CASE e.op \in {"U", "V"} -> e.d # <<>> /\ UnpackDefined(M, T.cfg, e.d)
    [] e.op = "P" -> PackDefined(M, T.cfg, st[e.m][e.k].phys, st[e.m][e.k].wit)
    [] OTHER -> TRUE
Verdict(e) == IF e.e = "crash" /\ ("op" \in DOMAIN e => Legal(e)) THEN "a legal call is undefined or leaves its memory" ELSE ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l] IN
           /\ bad' = Verdict(e)
           /\ l' = l + 1 /\ tr' = tr
           /\ st' = IF e.e \in {"crash", "tick", "conv"} THEN st
                    ELSE [st EXCEPT ![e.m][e.k] = [phys |-> e.phys, wit |-> IF "wit" \in DOMAIN e THEN e.wit ELSE e.raw]]
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
