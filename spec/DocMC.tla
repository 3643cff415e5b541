------------------------------- MODULE DocMC -------------------------------
(* The canonical form is a function of the number's value, and only of it.                     *)
EXTENDS Doc, TLC
CONSTANTS MaxDs, Digs, Scs
VARIABLES x, y
Nums == [neg : BOOLEAN, ds : UNION {[1..n -> Digs] : n \in 0..MaxDs}, sc : {k - 2 : k \in Scs}]
RECURSIVE Dig(_), P10(_)
Dig(ds) == IF ds = <<>> THEN 0 ELSE 10 * Dig(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
\* the value times 10^5 (scales up to 5, canonical ones down to -2)
Val(n) == (IF n.neg THEN -1 ELSE 1) * Dig(n.ds) * P10(5 - n.sc)
Init == x \in Nums /\ y \in Nums
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
SameValue == Val(Canon(x)) = Val(x)
OneForm == (Canon(x) = Canon(y)) <=> (Val(x) = Val(y))
Settled == Canon(Canon(x)) = Canon(x)
\* with the scale moved by 12 places: tiny is what lies below 10^-9
TinyIs == LET t == [x EXCEPT !.sc = @ + 12] IN
          Tiny(t) <=> (Dig(x.ds) # 0 /\ Dig(x.ds) * P10(5 - x.sc) < P10(5) * 1000)
=============================================================================
