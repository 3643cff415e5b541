--------------------------- MODULE DispatchTrace ---------------------------
(* C11.  A trace: rx (the messages of the receive set of one generated utility driver), ev:    *)
(* calls of its Receive function: identifier, payload and length in; returned identifier, the  *)
(* members of the receive struct that changed, for each member whether its content now is what *)
(* its own Unpack makes of the payload (like), and the raw fields of the changed member.       *)
EXTENDS Runtime, Dispatch, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Ids == [i \in 1..Len(T.rx) |-> T.rx[i].id]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Verdict(e) ==
  LET t == Target(Ids, e.id) IN
  IF e.crash THEN "Receive crashes"
  ELSE IF t = 0 THEN
    IF e.ret # <<0, 0>> THEN "a foreign identifier is reported as received"
    ELSE IF e.chg # <<>> THEN "a foreign identifier changes a message"
    ELSE ""
  ELSE
    IF e.ret # e.id THEN "the identifier of a received message is not returned"
    ELSE IF \E i \in 1..Len(e.chg) : e.chg[i] # t THEN "a frame changes another message"
    ELSE IF ~e.like THEN "a frame is not decoded into its message"
    ELSE IF e.raw # RawOf(T.rx[t], e.d) THEN "a frame is decoded wrongly"
    ELSE ""
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ l' = l + 1 /\ tr' = tr /\ bad' = Verdict(T.ev[l])
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
