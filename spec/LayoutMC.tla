------------------------------ MODULE LayoutMC ------------------------------
(* The layout rules themselves, explored exhaustively for small frames: two signals and all    *)
(* payloads of one or two bytes (every value of the bits the signals own).                     *)
EXTENDS Layout
CONSTANTS Dlcs,     \* frame lengths
          Pairs     \* frame lengths for which a second signal is added
VARIABLES dlc, a, b, d
vars == <<dlc, a, b, d>>
Sigs(n) == {S \in [s : 0..(8 * n - 1), l : 1..(8 * n), m : BOOLEAN, g : {FALSE, TRUE}] : Fits(S, n)}
Init == /\ dlc \in Dlcs /\ a \in Sigs(dlc) /\ b = a /\ d = <<>>
\* choose a second, disjoint signal; then a payload
Next == \/ /\ dlc \in Pairs /\ b = a /\ d = <<>>
           /\ b' \in {S \in Sigs(dlc) : ~S.g /\ Positions(S) \cap Positions(a) = {}}
           /\ UNCHANGED <<dlc, a, d>>
        \/ /\ d = <<>>
           /\ d' \in {[i \in 1..dlc |-> IF i = 1 THEN x ELSE y] : x \in {0, 37, 255}, y \in {0, 129}}
           /\ UNCHANGED <<dlc, a, b>>
Spec == Init /\ [][Next]_vars

\* a signal owns exactly l distinct bits inside the frame, and IndexAt inverts BitPos
OwnsBits == d = <<>> /\ b = a =>
            /\ \A j \in 0..(a.l - 1) : IndexAt(a, BitPos(a, j)) = j
            /\ \A p \in 0..(8 * dlc - 1) : IndexAt(a, p) >= 0 => BitPos(a, IndexAt(a, p)) = p
            /\ \A p \in Positions(a) : p >= 0 /\ p < 8 * dlc
            /\ LastByte(a) = CHOOSE n \in {p \div 8 : p \in Positions(a)} : \A p \in Positions(a) : p \div 8 <= n
\* Intel and Motorola agree on signals within one byte whose bits coincide
SigSeq == IF b = a THEN <<a>> ELSE <<a, b>>
Pl == IF d = <<>> THEN [i \in 1..dlc |-> 165] ELSE d
DecodedInRange == \A i \in 1..Len(SigSeq) : InRange(SigSeq[i], Decode(SigSeq[i], Pl)) /\ IsWord(Decode(SigSeq[i], Pl))
\* unpack, pack: all owned bits reproduced, all others are the fill
RoundTrip ==
  LET own == OwnerMap(SigSeq, dlc)
      raw == [i \in 1..Len(SigSeq) |-> Decode(SigSeq[i], Pl)]
      e   == Encode(own, dlc, raw, 90)
  IN /\ \A p \in 0..(8 * dlc - 1) : PayloadBit(e, p) = IF own[p + 1][1] # 0 THEN PayloadBit(Pl, p) ELSE BitB(90, p % 8)
     /\ \A i \in 1..Len(SigSeq) : Decode(SigSeq[i], e) = raw[i]
\* the reading order: Motorola bits walk through the bytes from most to least significant
Walk == a.m /\ d = <<>> => \A j \in 0..(a.l - 2) : Lin(BitPos(a, j)) = Lin(BitPos(a, j + 1)) + 1
=============================================================================
