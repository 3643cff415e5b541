------------------------------- MODULE Layout -------------------------------
(* Which payload bits a DBC signal owns.  A signal S has S.s (start bit), S.l (length),        *)
(* S.m (Motorola byte order) and S.g (two's complement).  Payload bit p is bit p%8 of byte     *)
(* p\div 8.  Bit j of a signal counts from its least significant bit.                          *)
EXTENDS Words

\* reading order of Motorola signals: byte by byte, most significant bit first
Lin(p)   == 8 * (p \div 8) + (7 - (p % 8))
UnLin(x) == 8 * (x \div 8) + (7 - (x % 8))

BitPos(S, j) == IF S.m THEN UnLin(Lin(S.s) + (S.l - 1 - j)) ELSE S.s + j
\* the signal's bit index at payload bit p, or -1
IndexAt(S, p) == LET j == IF S.m THEN S.l - 1 - (Lin(p) - Lin(S.s)) ELSE p - S.s
                 IN IF j >= 0 /\ j < S.l THEN j ELSE -1
Positions(S) == {BitPos(S, j) : j \in 0..(S.l - 1)}
LastByte(S) == IF S.m THEN (Lin(S.s) + S.l - 1) \div 8 ELSE (S.s + S.l - 1) \div 8
Fits(S, dlc) == LastByte(S) < dlc

PayloadBit(d, p) == BitB(d[(p \div 8) + 1], p % 8)

\* the value of S in payload d, as a 64-bit word
Extract(S, d) ==
  [i \in 1..8 |->
     IF 8 * (i - 1) >= S.l THEN 0
     ELSE LET B(t) == LET j == 8 * (i - 1) + t IN IF j < S.l THEN PayloadBit(d, BitPos(S, j)) ELSE 0
          IN MkByte(B)]
Decode(S, d) == IF S.g THEN SignExtW(Extract(S, d), S.l) ELSE Extract(S, d)

InRange(S, w) == w = (IF S.g THEN SignExtW(w, S.l) ELSE TruncW(w, S.l))

\* owners of every payload bit: <<signal, index>>, or <<0, 0>>; signals are disjoint
OwnerAt(sigs, p) ==
  LET C == {i \in 1..Len(sigs) : IndexAt(sigs[i], p) >= 0}
  IN IF C = {} THEN <<0, 0>> ELSE LET i == CHOOSE i \in C : TRUE IN <<i, IndexAt(sigs[i], p)>>
OwnerMap(sigs, dlc) == [p \in 1..(8 * dlc) |-> OwnerAt(sigs, p - 1)]
Disjoint(sigs, dlc) ==
  \A p \in 0..(8 * dlc - 1) : \A i, k \in 1..Len(sigs) :
     IndexAt(sigs[i], p) >= 0 /\ IndexAt(sigs[k], p) >= 0 => i = k

\* payload with every owned bit taken from the raw words and every other bit from the fill byte
Encode(own, dlc, raw, fill) ==
  [b \in 1..dlc |->
     LET B(t) == LET o == own[8 * (b - 1) + t + 1]
                 IN IF o[1] = 0 THEN BitB(fill, t) ELSE BitOf(raw[o[1]], o[2])
     IN MkByte(B)]
=============================================================================
