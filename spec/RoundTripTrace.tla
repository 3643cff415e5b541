--------------------------- MODULE RoundTripTrace ---------------------------
(* C03: what Pack sends is what Unpack restores, and the reverse.  The state remembers, for    *)
(* every message, the struct content behind each payload in flight (slot) and, for every       *)
(* instance, the payload it was last unpacked from.                                           *)
EXTENDS Layout, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, inst, slots, bad
vars == <<tr, l, inst, slots, bad>>
T == Traces[tr]

\* inst[m][k]: [raw: intended field contents, from: <<>> or <<payload unpacked last>>]
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""
        /\ inst = [m \in 1..Len(T.msgs) |-> [k \in 1..3 |-> [raw |-> <<>>, from |-> <<>>]]]
        /\ slots = [m \in 1..Len(T.msgs) |-> [s \in 0..7 |-> <<>>]]

Owned(M, p) == \E i \in 1..Len(M.sigs) : IndexAt(M.sigs[i], p) >= 0
Verdict(e) ==
  IF e.e = "crash" THEN "crash"
  ELSE LET M == T.msgs[e.m] IN
  IF e.e = "set"
  THEN IF \E i \in 1..Len(e.want) : InRange(M.sigs[i], e.want[i]) /\ e.raw[i] # e.want[i] THEN "a raw field does not hold an in-range value" ELSE ""
  ELSE IF e.e = "pack"
  THEN IF /\ inst[e.m][e.k].from # <<>>
          /\ \E p \in 0..(8 * M.dlc - 1) : Owned(M, p) /\ PayloadBit(e.d, p) # PayloadBit(inst[e.m][e.k].from[1], p)
       THEN "packing an unpacked frame changes a signal's bit" ELSE ""
  ELSE IF e.slot >= 0 /\ \E i \in 1..Len(M.sigs) : InRange(M.sigs[i], slots[e.m][e.slot][i]) /\ e.raw[i] # slots[e.m][e.slot][i]
       THEN "unpacking a packed frame does not restore a field" ELSE ""

Next ==
  /\ bad = "" /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ bad' = Verdict(e) /\ l' = l + 1 /\ tr' = tr
     /\ IF bad' # "" THEN UNCHANGED <<inst, slots>>
        ELSE /\ inst' = [inst EXCEPT ![e.m][e.k] =
                   IF e.e = "set" THEN [raw |-> IF e.zero THEN e.raw ELSE e.want, from |-> <<>>]
                   ELSE IF e.e = "pack" THEN @
                   ELSE [raw |-> e.raw, from |-> <<e.d>>]]
             /\ slots' = IF e.e = "pack" THEN [slots EXCEPT ![e.m][e.slot] = inst[e.m][e.k].raw] ELSE slots
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
