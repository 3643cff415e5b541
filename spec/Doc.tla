-------------------------------- MODULE Doc --------------------------------
(* What the driver's header says about its messages and signals.  A number is written as       *)
(* [neg, ds, sc] : the digits ds (most significant first) times ten to the power of -sc.       *)
EXTENDS Integers, Sequences

RECURSIVE NoLead(_), NoTail(_, _)
NoLead(ds) == IF ds # <<>> /\ Head(ds) = 0 THEN NoLead(Tail(ds)) ELSE ds
NoTail(ds, sc) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN NoTail(SubSeq(ds, 1, Len(ds) - 1), sc - 1) ELSE <<ds, sc>>
Zero == [neg |-> FALSE, ds |-> <<>>, sc |-> 0]
One == [neg |-> FALSE, ds |-> <<1>>, sc |-> 0]
\* the one way to write a number: no zeros at either end
Canon(x) ==
  LET a == NoTail(NoLead(x.ds), x.sc) IN
  IF a[1] = <<>> THEN Zero ELSE [neg |-> x.neg, ds |-> a[1], sc |-> a[2]]
\* not zero, and of a magnitude below 10^-9
Tiny(x) == LET c == Canon(x) IN c # Zero /\ Len(c.ds) - c.sc - 1 < -9

\* a scaling with a tiny number is no scaling at all
Factor(s) == IF Tiny(s.fac) \/ Tiny(s.off) THEN One ELSE Canon(s.fac)
Offset(s) == IF Tiny(s.fac) \/ Tiny(s.off) THEN Zero ELSE Canon(s.off)
\* is the raw field accompanied by a physical one?
Scaled(s) == ~(Tiny(s.fac) \/ Tiny(s.off)) /\ (s.dec \/ Factor(s) # One \/ Offset(s) # Zero)
FieldName(s) == IF Scaled(s) THEN s.n \o "_ro" ELSE s.n

\* the documentation of a signal; a number that is not shown is Zero (offset), One (factor)
SigDoc(s) == [text |-> s.comment \o s.vals, role |-> s.mux, bits |-> s.l, signed |-> s.g,
              off |-> Offset(s), fac |-> Factor(s), unit |-> s.unit]
Plain(d) == [d EXCEPT !.text = <<>>]
MsgDoc(m) == [text |-> m.comment, name |-> m.n, dec |-> m.id, hex |-> m.id]
=============================================================================
