----------------------------- MODULE ConstTrace -----------------------------
(* C04, first part: identifier, length and kind constants of all accepted messages and the     *)
(* driver's maximum DLC.  A trace: lines (the BO_ lines of the document, in order), obs.       *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, max, bad
vars == <<tr, l, max, bad>>
T == Traces[tr]

\* a BO_ line: raw identifier as <<high 16 bits, low 16 bits>>, dlc, name
ReservedBits(raw) == (raw[1] \div 8192) % 4 # 0          \* bits 29 and 30
IsExt(raw) == raw[1] >= 32768
Accept(b) == ~ReservedBits(b.id) /\ b.dlc >= 1 /\ b.dlc <= 64
CanId(raw) == <<raw[1] % 8192, raw[2]>>

Init == tr \in 1..Len(Traces) /\ l = 1 /\ max = 0 /\ bad = ""
Obs(n) == {o \in {T.obs[i] : i \in 1..Len(T.obs)} : o.n = n}
Verdict(b) ==
  LET O == Obs(b.n) IN
  IF ~Accept(b) THEN (IF O # {} THEN "a rejected message has constants" ELSE "")
  ELSE IF Cardinality(O) # 1 THEN "an accepted message has no constants"
  ELSE LET o == CHOOSE o \in O : TRUE IN
       IF o.id # CanId(b.id) THEN "wrong identifier constant"
       ELSE IF o.dlc # b.dlc THEN "wrong DLC constant"
       ELSE IF o.ide # (IF IsExt(b.id) THEN 1 ELSE 0) THEN "wrong frame kind constant"
       ELSE ""
Next == /\ bad = "" /\ l <= Len(T.lines) + 1
        /\ l' = l + 1 /\ tr' = tr
        /\ IF l <= Len(T.lines)
           THEN /\ bad' = Verdict(T.lines[l])
                /\ max' = IF Accept(T.lines[l]) /\ T.lines[l].dlc > max THEN T.lines[l].dlc ELSE max
           ELSE /\ bad' = IF T.max # max THEN "wrong maximum DLC constant" ELSE ""
                /\ max' = max
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
