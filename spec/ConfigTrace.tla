---------------------------- MODULE ConfigTrace ----------------------------
(* C05: one script executed by the same driver in the reference configuration (every switch    *)
(* off) and in another one.  Both executions advance together.                                 *)
EXTENDS Runtime, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
Base == ndJsonDeserialize("base.ndjson")
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
B == Base[T.base]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""

\* payload bits the automatic features may change
Free(M, C, p) == \/ C.roll /\ RollIdx(M) # 0 /\ IndexAt(M.sigs[RollIdx(M)], p) >= 0
                 \/ C.csm /\ CsmIdx(M) # 0 /\ IndexAt(M.sigs[CsmIdx(M)], p) >= 0
Verdict(b, e) ==
  IF b.e = "crash" \/ e.e = "crash" THEN "crash"
  ELSE LET M == B.msgs[e.m] IN
  IF e.e = "pack"
  THEN IF Len(e.d) # Len(b.d) \/ \E p \in 0..(8 * M.dlc - 1) : ~Free(M, T.cfg, p) /\ PayloadBit(e.d, p) # PayloadBit(b.d, p)
       THEN "the configuration changes the payload" ELSE ""
  ELSE IF e.e = "unpack"
  THEN IF e.raw # b.raw THEN "the configuration changes a raw field" ELSE ""
  ELSE ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ bad' = Verdict(B.ev[l], T.ev[l]) /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
