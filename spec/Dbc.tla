-------------------------------- MODULE Dbc --------------------------------
(* What a signal line means beyond its layout: the kind of scaling and the names of fields.    *)
(* S.fac / S.off: [tiny, dot, w, nano] = magnitude non-zero below 1e-9; written with a '.' or  *)
(* an exponent; value as a word (when integral); value times 10^9 as a signed number.          *)
EXTENDS Layout, Big

Kind(S) == IF S.fac.tiny \/ S.off.tiny THEN "plain"
           ELSE IF S.fac.dot \/ S.off.dot THEN "dec"
           ELSE IF S.fac.w = One8 /\ S.off.w = Zero8 THEN "plain"
           ELSE "int"
Scaled(S) == Kind(S) # "plain"
FieldName(S) == IF Scaled(S) THEN S.n \o "_ro" ELSE S.n

\* the domain of integer scaling: raw, raw*factor and raw*factor+offset exist in 64 bits
Limit == <<0, 0, 0, 0, 0, 0, 0, 128>>                            \* 2^63
Fits64(z) == IF z.neg THEN NCmp(z.mag, Limit) <= 0 ELSE NCmp(z.mag, Limit) < 0
IntDefined(S, r) ==
  LET p == ZMul(ZWord(r, S.g), ZWord(S.fac.w, TRUE))
  IN Fits64(ZWord(r, S.g)) /\ Fits64(p) /\ Fits64(ZAdd(p, ZWord(S.off.w, TRUE)))

\* physical value of raw word r for integer scaling, modulo 2^64
PhysInt(S, r) == AddW(MulW(r, S.fac.w), S.off.w)

\* decimal scaling: |ph - (r*f+o)| <= 2^-45 (|r*f| + |o|), with ph = +-mag/2^k and f, o in units of 1e-9
PhysDecOk(S, r, ph) ==
  LET rf    == ZMul(ZWord(r, S.g), S.fac.nano)
      exact == ZShl(ZAdd(rf, S.off.nano), ph.k)
      diff  == ZSub(ZMul(Z(ph.neg, ph.mag), Z(FALSE, Giga)), exact)
      tol   == NShl(NAdd(rf.mag, S.off.nano.mag), ph.k)
  IN ~ph.nan /\ NCmp(NShl(diff.mag, 45), tol) <= 0
\* |r*f+o - ph| <= |f| up to the same rounding
WithinStep(S, r, ph) ==
  LET rf    == ZMul(ZWord(r, S.g), S.fac.nano)
      exact == ZShl(ZAdd(rf, S.off.nano), ph.k)
      diff  == ZSub(ZMul(Z(ph.neg, ph.mag), Z(FALSE, Giga)), exact)
      tol   == NShl(NAdd(NShl(S.fac.nano.mag, 45), NAdd(rf.mag, S.off.nano.mag)), ph.k)
  IN ~ph.nan /\ NCmp(NShl(diff.mag, 45), tol) <= 0
\* r shows that ph is a value the signal can take
Witness(S, ph, r) ==
  /\ InRange(S, r)
  /\ IF Kind(S) = "int" THEN IntDefined(S, r) /\ PhysInt(S, r) = ph.w
     ELSE S.l <= 52 /\ PhysDecOk(S, r, ph)
=============================================================================
