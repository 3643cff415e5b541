-------------------------------- MODULE Big --------------------------------
(* Unbounded naturals (byte sequences, least significant first, no leading zeros) and signed   *)
(* numbers [neg, mag], used for exact statements about decimal scaling.                       *)
EXTENDS Words

RECURSIVE Norm(_)
Norm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE CarryN(_, _, _)
CarryN(c, k, acc) ==
  IF c = <<>> THEN (IF k = 0 THEN acc ELSE CarryN(<<>>, k \div 256, Append(acc, k % 256)))
  ELSE LET x == c[1] + k IN CarryN(Tail(c), x \div 256, Append(acc, x % 256))
NAdd(a, b) == Norm(CarryN([i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) + At(b, i)], 0, <<>>))
RECURSIVE DotN(_, _, _, _)
DotN(a, b, k, i) == IF i > k THEN 0 ELSE At(a, i) * At(b, k + 1 - i) + DotN(a, b, k, i + 1)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Norm(CarryN([k \in 1..(Len(a) + Len(b)) |-> DotN(a, b, k, 1)], 0, <<>>))
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF At(a, i) < At(b, i) THEN -1 ELSE IF At(a, i) > At(b, i) THEN 1 ELSE CmpFrom(a, b, i - 1)
NCmp(a, b) == CmpFrom(a, b, Max2(Len(a), Len(b)))
RECURSIVE Borrow(_, _, _, _, _)
Borrow(a, b, i, k, acc) == IF i > Len(a) THEN acc
                           ELSE LET x == a[i] - At(b, i) - k
                                IN Borrow(a, b, i + 1, IF x < 0 THEN 1 ELSE 0, Append(acc, IF x < 0 THEN x + 256 ELSE x))
NSub(a, b) == Norm(Borrow(a, b, 1, 0, <<>>))                     \* a >= b
NShl(a, k) == IF a = <<>> THEN <<>> ELSE NMul([i \in 1..(k \div 8) |-> 0] \o <<1>>, NMul(a, <<P2[(k % 8) + 1]>>))

Z(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
ZAdd(x, y) == IF x.neg = y.neg THEN Z(x.neg, NAdd(x.mag, y.mag))
              ELSE IF NCmp(x.mag, y.mag) >= 0 THEN Z(x.neg, NSub(x.mag, y.mag))
              ELSE Z(y.neg, NSub(y.mag, x.mag))
ZNeg(x) == Z(~x.neg, x.mag)
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == Z(x.neg # y.neg, NMul(x.mag, y.mag))
ZShl(x, k) == Z(x.neg, NShl(x.mag, k))

\* a 64-bit word as a number
ZWord(w, signed) == IF signed /\ w[8] >= 128 THEN Z(TRUE, Norm(NegW(w))) ELSE Z(FALSE, Norm(w))
Giga == <<0, 202, 154, 59>>                                      \* 10^9
=============================================================================
