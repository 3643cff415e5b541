------------------------------ MODULE Runtime ------------------------------
(* The generated driver at run time.  A message instance has raw fields, physical fields, a    *)
(* monitor and the receiver's expected counter; Pack and Unpack are its transitions.           *)
(*                                                                                             *)
(* M    message: id, ext, dlc, sigs           C   configuration switches                       *)
(* own  OwnerMap of M                         st  instance state [raw, phys, mon, expt]        *)
(* expt is <<>> while no frame has been received, else <<w>>                                   *)
EXTENDS Dbc

Idx(sigs, P(_)) == LET c == {i \in 1..Len(sigs) : P(sigs[i])} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A k \in c : i <= k
RollIdx(M) == LET P(s) == s.roll IN Idx(M.sigs, P)
\* a checksum marker counts on unsigned unscaled signals within one byte
CsmIdx(M)  == LET P(s) == s.csm /\ ~s.g /\ Kind(s) = "plain" /\ BitPos(s, 0) \div 8 = BitPos(s, s.l - 1) \div 8 IN Idx(M.sigs, P)

(*---------------------------------- sending ----------------------------------*)
\* raw fields as they are encoded, with the checksum bits zero; conv = raw values of scaled signals
PackRaw(M, C, st, conv) ==
  [i \in 1..Len(M.sigs) |->
     IF C.csm /\ i = CsmIdx(M) THEN Zero8
     ELSE IF C.roll /\ i = RollIdx(M) THEN IncMod(st.raw[i], M.sigs[i].l)
     ELSE IF C.sf /\ Scaled(M.sigs[i]) THEN conv[i]
     ELSE st.raw[i]]
HashesOnPack(M, C)   == C.csm /\ CsmIdx(M) # 0
HashesOnUnpack(M, C) == C.mon /\ HashesOnPack(M, C)
Payload0(M, C, own, st, conv) == Encode(own, M.dlc, PackRaw(M, C, st, conv), C.init)
\* res: sequence of hash results (one if the message has a checksum)
PayloadF(M, C, own, st, conv, res) ==
  IF HashesOnPack(M, C)
  THEN Encode(own, M.dlc, [PackRaw(M, C, st, conv) EXCEPT ![CsmIdx(M)] = res], C.init)
  ELSE Payload0(M, C, own, st, conv)
\* fields Pack must leave alone
KeptByPack(M, C, i) == ~(C.csm /\ i = CsmIdx(M)) /\ ~(C.roll /\ i = RollIdx(M)) /\ ~(C.sf /\ Scaled(M.sigs[i]))

(*--------------------------------- receiving ---------------------------------*)
RawOf(M, d) == [i \in 1..Len(M.sigs) |-> Decode(M.sigs[i], d)]
DlcError(M, rdlc) == IF rdlc < M.dlc THEN 1 ELSE 0
\* the roll error of a frame with counter value r: unconstrained for the first frame
RollErrors(r, expt) == IF expt = <<>> THEN {0, 1} ELSE IF r = expt[1] THEN {0} ELSE {1}
NextExpt(M, r) == <<IncMod(r, M.sigs[RollIdx(M)].l)>>
RollsOnUnpack(M, C) == C.mon /\ C.roll /\ RollIdx(M) # 0
CsmError(r, res) == IF r = res THEN 0 ELSE 1
Inc32(c) == IF c[2] = 65535 THEN <<(c[1] + 1) % 65536, 0>> ELSE <<c[1], c[2] + 1>>
=============================================================================
