----------------------------- MODULE DocTrace -----------------------------
(* Headers of generated drivers, in both struct layouts.  A trace: msgs (of the document) and  *)
(* obs: per layout the documented messages with their fields, and texts found anywhere else.   *)
EXTENDS Doc, Json, TLC
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, bad
vars == <<tr, l, bad>>
T == Traces[tr]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = ""

Obs(n, q) == {i \in 1..Len(q) : q[i].n = n}
ReadDoc(o) == [text |-> o.text, role |-> o.role, bits |-> o.bits, signed |-> o.signed,
               off |-> Canon(o.off), fac |-> Canon(o.fac), unit |-> o.unit]
\* verdict on message m as layout L of the header shows it
FieldVerdict(s, o) ==
  LET F == Obs(FieldName(s), o.fields) IN
  IF Len(SelectSeq(o.fields, LAMBDA f : f.n = FieldName(s))) # 1 THEN "field missing or repeated: " \o FieldName(s)
  ELSE LET f == o.fields[CHOOSE i \in F : TRUE] IN
       IF ~f.doc THEN "field without documentation: " \o f.n
       ELSE IF ReadDoc(f) # SigDoc(s) THEN "documentation of field " \o f.n
       ELSE IF Scaled(s) /\ f.cov # <<Factor(s)>> /\ (f.cov = <<>> \/ Canon(f.cov[1]) # Factor(s)) THEN "factor constant of " \o f.n
       ELSE ""
MsgVerdict(m, o) ==
  LET B == {k \in 1..Len(m.sigs) : FieldVerdict(m.sigs[k], o) # ""}
      own == {FieldName(m.sigs[k]) : k \in 1..Len(m.sigs)}
  IN IF [text |-> o.text, name |-> o.n, dec |-> o.dec, hex |-> o.hex] # MsgDoc(m) THEN "documentation of message " \o m.n
     ELSE IF B # {} THEN FieldVerdict(m.sigs[CHOOSE k \in B : TRUE], o)
     \* fields that are no raw fields (physical, expected counter, monitor) carry no text of their own
     ELSE IF \E i \in 1..Len(o.fields) : o.fields[i].n \notin own /\ o.fields[i].text # <<>> /\
                 ~(m.roll # 0 /\ o.fields[i].n = FieldName(m.sigs[m.roll]) \o "_expt" /\ o.fields[i].text = m.sigs[m.roll].vals)
          THEN "text at a field without documentation"
     ELSE ""
Verdict(m) ==
  LET R(L) == LET I == Obs(m.n, T.obs[L].msgs) IN
              IF Len(SelectSeq(T.obs[L].msgs, LAMBDA o : o.n = m.n)) # 1 THEN "message not documented: " \o m.n
              ELSE MsgVerdict(m, T.obs[L].msgs[CHOOSE i \in I : TRUE])
  IN IF \E L \in 1..Len(T.obs) : R(L) # "" THEN R(CHOOSE L \in 1..Len(T.obs) : R(L) # "") ELSE ""
Last == IF \E L \in 1..Len(T.obs) : Len(T.obs[L].msgs) # Len(T.msgs) THEN "documentation of messages that do not exist"
        ELSE IF \E L \in 1..Len(T.obs) : T.obs[L].stray # <<>> THEN "documentation in a foreign place"
        ELSE ""
Next == /\ bad = "" /\ l <= Len(T.msgs) + 1
        /\ l' = l + 1 /\ tr' = tr
        /\ bad' = IF l <= Len(T.msgs) THEN Verdict(T.msgs[l]) ELSE Last
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
