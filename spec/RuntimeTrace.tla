---------------------------- MODULE RuntimeTrace ----------------------------
(* Validation of executions of a generated driver: every public call, with its arguments and   *)
(* everything it made observable, must be a step of Runtime.                                   *)
(* A trace: msgs, cfg and ev, the sequence of events.  `bad` names the first aspect in which   *)
(* an event is not a step; Aspects selects the aspects a property is about, everything else    *)
(* is taken over from the log.                                                                 *)
EXTENDS Runtime, Json, TLC

CONSTANT Aspects
Traces == ndJsonDeserialize("trace.ndjson")
Own == [t \in 1..Len(Traces) |-> [i \in 1..Len(Traces[t].msgs) |-> OwnerMap(Traces[t].msgs[i].sigs, Traces[t].msgs[i].dlc)]]

VARIABLES tr, l, st, tick, bad
vars == <<tr, l, st, tick, bad>>

A(x) == x \in Aspects
T == Traces[tr]
Zeros(n) == [i \in 1..n |-> Zero8]
Start(M) == [raw |-> <<>>, wit |-> <<>>, phys |-> <<>>, mon |-> <<>>, expt |-> <<>>]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1 /\ bad = "" /\ tick = <<0, 0>>
        /\ st = [i \in 1..Len(T.msgs) |-> [k \in 1..3 |-> Start(T.msgs[i])]]

\* raw values the physical fields of an instance belong to
Wit(e) == IF "wit" \in DOMAIN e THEN e.wit ELSE e.raw
\* the script sets the struct content; a field must hold what is stored into it when it is in range
SetVerdict(M, C, s, e) ==
  IF A("mem") /\ ~e.gd THEN "memory: the struct's surroundings changed"
  ELSE IF A("hold") /\ \E i \in 1..Len(e.want) : InRange(M.sigs[i], e.want[i]) /\ e.raw[i] # e.want[i]
       THEN "hold: a raw field does not hold an in-range value"
  ELSE IF A("phold") /\ \E i \in 1..Len(e.pwant) : Kind(M.sigs[i]) = "int" /\ IntDefined(M.sigs[i], Wit(e)[i]) /\ e.phys[i].w # e.pwant[i]
       THEN "phold: a physical field does not hold the value"
  ELSE ""

PackVerdict(M, C, own, s, e) ==
  LET csm == HashesOnPack(M, C)
      res == IF csm THEN (IF e.h # <<>> THEN e.h[1].res ELSE e.raw[CsmIdx(M)]) ELSE Zero8
      n   == Len(M.sigs)
  IN
  IF A("mem") /\ ~e.gd THEN "memory: the struct's surroundings changed"
  ELSE IF A("mem") /\ ~e.ob THEN "memory: bytes outside the frame changed"
  ELSE IF A("id") /\ e.ret # M.id THEN "id: Pack returns another identifier"
  ELSE IF A("id") /\ e.fid # M.id THEN "id: the frame has another identifier"
  ELSE IF A("id") /\ e.len # M.dlc THEN "id: wrong length reported"
  ELSE IF A("id") /\ e.ide # (IF M.ext THEN 1 ELSE 0) THEN "id: wrong frame kind reported"
  ELSE IF A("roll") /\ C.roll /\ RollIdx(M) # 0
          /\ e.raw[RollIdx(M)] # IncMod(s.raw[RollIdx(M)], M.sigs[RollIdx(M)].l) THEN "roll: counter did not advance by one"
  ELSE IF A("roll") /\ RollIdx(M) # 0 /\ Decode(M.sigs[RollIdx(M)], e.d)
                    # (IF C.roll THEN IncMod(s.raw[RollIdx(M)], M.sigs[RollIdx(M)].l) ELSE TruncW(s.raw[RollIdx(M)], M.sigs[RollIdx(M)].l))
       THEN "roll: wrong counter sent"
  ELSE IF A("csm") /\ e.nh # (IF csm THEN 1 ELSE 0) THEN "csm: wrong number of hash calls"
  ELSE IF A("csm") /\ csm /\ e.h[1].d # Payload0(M, C, own, s, e.raw) THEN "csm: hash was given other data"
  ELSE IF A("csm") /\ csm /\ (e.h[1].len # <<0, M.dlc>> \/ e.h[1].id # M.id) THEN "csm: hash was given another length or id"
  ELSE IF A("csm") /\ csm /\ (e.h[1].me # M.sigs[CsmIdx(M)].meth \/ e.h[1].op # M.sigs[CsmIdx(M)].op) THEN "csm: hash was given another method or option"
  ELSE IF A("bits") /\ e.d # PayloadF(M, C, own, s, e.raw, res) THEN "bits: wrong payload"
  ELSE IF A("bits") /\ \E i \in 1..n : KeptByPack(M, C, i) /\ e.raw[i] # s.raw[i] THEN "bits: Pack changed a field"
  ELSE IF A("phys") /\ C.sf /\ \E i \in 1..n : Kind(M.sigs[i]) = "int" /\ Witness(M.sigs[i], s.phys[i], s.wit[i]) /\ (PhysInt(M.sigs[i], e.raw[i]) # s.phys[i].w \/ ~InRange(M.sigs[i], e.raw[i]))
       THEN "phys: packed raw value is not the one of the physical field"
  ELSE IF A("phys") /\ C.sf /\ \E i \in 1..n : Kind(M.sigs[i]) = "int" /\ Witness(M.sigs[i], s.phys[i], s.wit[i]) /\ Decode(M.sigs[i], e.d) # e.raw[i]
       THEN "phys: the payload does not carry the raw value"
  ELSE IF A("dec") /\ C.sf /\ \E i \in 1..n : Kind(M.sigs[i]) = "dec" /\ ~WithinStep(M.sigs[i], Decode(M.sigs[i], e.d), s.phys[i])
       THEN "dec: packed raw value is more than a step off"
  ELSE IF A("fmon") /\ e.nf # 0 THEN "fmon: Pack calls the monitor"
  ELSE IF A("fmon") /\ e.mon # s.mon THEN "fmon: Pack changes the monitor"
  ELSE ""

UnpackVerdict(M, C, s, e) ==
  LET csm == HashesOnUnpack(M, C)
      ro  == RollsOnUnpack(M, C)
      n   == Len(M.sigs)
  IN
  IF A("mem") /\ ~e.gd THEN "memory: the struct's surroundings changed"
  ELSE IF A("mem") /\ ~e.ob THEN "memory: Unpack wrote the payload"
  ELSE IF A("id") /\ e.ret # M.id THEN "id: Unpack returns another identifier"
  \* a log may show one field only (sel)
  ELSE IF A("raw") /\ (IF "sel" \in DOMAIN e THEN e.raw[1] # Decode(M.sigs[e.sel], e.d) ELSE \E i \in 1..n : e.raw[i] # Decode(M.sigs[i], e.d))
       THEN "raw: wrong field value"
  ELSE IF A("phys") /\ C.sf /\ \E i \in 1..n : Kind(M.sigs[i]) = "int" /\ IntDefined(M.sigs[i], Decode(M.sigs[i], e.d)) /\ e.phys[i].w # PhysInt(M.sigs[i], Decode(M.sigs[i], e.d))
       THEN "phys: wrong physical value"
  ELSE IF A("dec") /\ C.sf /\ \E i \in 1..n : Kind(M.sigs[i]) = "dec" /\ ~PhysDecOk(M.sigs[i], Decode(M.sigs[i], e.d), e.phys[i])
       THEN "dec: wrong physical value"
  ELSE IF A("roll") /\ ro /\ e.mon[1].roll \notin RollErrors(Decode(M.sigs[RollIdx(M)], e.d), s.expt) THEN "roll: wrong roll error"
  ELSE IF A("roll") /\ ro /\ e.nf = 1 /\ e.f[1].mon.roll # e.mon[1].roll THEN "roll: monitor function sees another roll error"
  ELSE IF A("csm") /\ e.nh # (IF csm THEN 1 ELSE 0) THEN "csm: wrong number of hash calls"
  ELSE IF A("csm") /\ csm /\ e.h[1].d # SubSeq(e.d, 1, M.dlc) THEN "csm: hash was given other data"
  ELSE IF A("csm") /\ csm /\ (e.h[1].len # <<0, M.dlc>> \/ e.h[1].id # M.id) THEN "csm: hash was given another length or id"
  ELSE IF A("csm") /\ csm /\ (e.h[1].me # M.sigs[CsmIdx(M)].meth \/ e.h[1].op # M.sigs[CsmIdx(M)].op) THEN "csm: hash was given another method or option"
  ELSE IF A("csm") /\ csm /\ e.mon[1].csm # CsmError(Decode(M.sigs[CsmIdx(M)], e.d), e.h[1].res) THEN "csm: wrong checksum error"
  ELSE IF A("csm") /\ csm /\ e.nf = 1 /\ e.f[1].mon.csm # e.mon[1].csm THEN "csm: monitor function sees another checksum error"
  ELSE IF ~C.mon THEN (IF A("fmon") /\ e.nf # 0 THEN "fmon: a monitor function was called" ELSE "")
  ELSE IF A("fmon") /\ e.mon[1].dlc # DlcError(M, e.rdlc) THEN "fmon: wrong length error"
  ELSE IF A("fmon") /\ e.mon[1].last # tick THEN "fmon: wrong tick"
  ELSE IF A("fmon") /\ s.mon # <<>> /\ e.mon[1].cnt # Inc32(s.mon[1].cnt) THEN "fmon: frame counter not advanced by one"
  ELSE IF A("fmon") /\ e.nf # 1 THEN "fmon: monitor function not called exactly once"
  ELSE IF A("fmon") /\ (e.f[1].pm # e.m \/ e.f[1].pi # e.k) THEN "fmon: called with another monitor"
  ELSE IF A("fmon") /\ e.f[1].id # M.id THEN "fmon: called with another identifier"
  ELSE IF A("fmon") /\ e.f[1].fn # (IF C.mono THEN 0 ELSE e.m) THEN "fmon: another message's function was called"
  ELSE IF A("fmon") /\ e.f[1].mon # e.mon[1] THEN "fmon: flags were not final when the monitor function was called"
  ELSE ""

\* the application applies a conversion macro: to = physical value to raw value
ConvVerdict(M, e) ==
  LET S == M.sigs[e.sig] IN
  IF ~A("macro") \/ e.none THEN ""
  ELSE IF Kind(S) = "int" /\ e.to /\ PhysInt(S, e.y.w) # e.x.w THEN "macro: conversion to raw is not exact"
  ELSE IF Kind(S) = "int" /\ ~e.to /\ PhysInt(S, e.x.w) # e.y.w THEN "macro: conversion to physical is not exact"
  ELSE IF Kind(S) = "dec" /\ e.to /\ ~WithinStep(S, e.y.w, e.x) THEN "macro: raw value is more than a step off"
  ELSE IF Kind(S) = "dec" /\ ~e.to /\ ~PhysDecOk(S, e.x.w, e.y) THEN "macro: wrong physical value"
  ELSE ""

Verdict(e) ==
  IF e.e = "crash" THEN "crash"
  ELSE IF e.e = "tick" THEN ""
  ELSE LET M == T.msgs[e.m] IN
       IF e.e = "set" THEN SetVerdict(M, T.cfg, st[e.m][e.k], e)
       ELSE IF e.e = "conv" THEN ConvVerdict(M, e)
       ELSE IF e.e = "pack" THEN PackVerdict(M, T.cfg, Own[tr][e.m], st[e.m][e.k], e)
       ELSE UnpackVerdict(M, T.cfg, st[e.m][e.k], e)

NextExptOf(e) ==
  LET M == T.msgs[e.m] IN
  IF e.e = "unpack" /\ RollsOnUnpack(M, T.cfg) THEN NextExpt(M, Decode(M.sigs[RollIdx(M)], e.d))
  ELSE IF e.e = "set" /\ e.zero THEN <<>>
  ELSE st[e.m][e.k].expt

Next ==
  /\ bad = "" /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ bad' = Verdict(e)
     /\ l' = l + 1 /\ tr' = tr
     /\ tick' = IF e.e = "tick" THEN e.v ELSE tick
     /\ st' = IF bad' # "" \/ e.e \in {"tick", "conv"} THEN st
              ELSE [st EXCEPT ![e.m][e.k] = [raw |-> e.raw, wit |-> Wit(e), phys |-> e.phys, mon |-> e.mon, expt |-> NextExptOf(e)]]
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
