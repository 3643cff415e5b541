------------------------------- MODULE Words -------------------------------
(* 64-bit words as sequences of 8 bytes, least significant first (TLC integers have 32 bits),  *)
(* and two's complement arithmetic modulo 2^64 on them.                                       *)
EXTENDS Integers, Sequences

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>          \* P2[j + 1] = 2^j
BitB(b, j) == (b \div P2[j + 1]) % 2                \* bit j of byte b
BitOf(w, j) == BitB(w[(j \div 8) + 1], j % 8)       \* bit j of word w
MkByte(f(_)) == f(0) + 2 * f(1) + 4 * f(2) + 8 * f(3) + 16 * f(4) + 32 * f(5) + 64 * f(6) + 128 * f(7)

Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
One8  == <<1, 0, 0, 0, 0, 0, 0, 0>>
IsWord(w) == Len(w) = 8 /\ \A i \in 1..8 : w[i] \in 0..255

\* the low n bits of w
TruncW(w, n) == [i \in 1..8 |-> IF 8 * i <= n THEN w[i]
                                ELSE IF 8 * (i - 1) >= n THEN 0
                                ELSE w[i] % P2[n - 8 * (i - 1) + 1]]
\* the low n bits of w read as an n-bit two's complement number
SignExtW(w, n) ==
  IF BitOf(w, n - 1) = 0 THEN TruncW(w, n)
  ELSE [i \in 1..8 |-> IF 8 * i <= n THEN w[i]
                       ELSE IF 8 * (i - 1) >= n THEN 255
                       ELSE LET h == P2[n - 8 * (i - 1) + 1] IN (w[i] % h) + (256 - h)]

\* normalise column sums c (each below 2^24) to bytes, modulo 2^64
RECURSIVE Carry(_, _, _, _)
Carry(c, i, k, acc) == IF i > Len(c) THEN acc
                       ELSE LET x == c[i] + k IN Carry(c, i + 1, x \div 256, Append(acc, x % 256))
AddW(a, b) == Carry([i \in 1..8 |-> a[i] + b[i]], 1, 0, <<>>)
NegW(a)    == Carry([i \in 1..8 |-> (255 - a[i]) + (IF i = 1 THEN 1 ELSE 0)], 1, 0, <<>>)
RECURSIVE Dot(_, _, _, _)
Dot(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Dot(a, b, k, i + 1)
MulW(a, b) == Carry([k \in 1..8 |-> Dot(a, b, k, 1)], 1, 0, <<>>)

\* w + 1 modulo 2^n
IncMod(w, n) == TruncW(AddW(w, One8), n)
=============================================================================
