------------------------------- MODULE SideMC -------------------------------
(* Two drivers' objects and one call at a time, all histories: in the product every object's   *)
(* answers are those of the object alone.  With Shared = TRUE the machines keep one thing in   *)
(* common (a static variable, a buffer): SideMC_shared.cfg shows that the frame condition and  *)
(* the answers both notice.                                                                    *)
EXTENDS Side, TLC
CONSTANTS N, V, Depth, Shared, Names
VARIABLES st, reg, h, touched
vars == <<st, reg, h, touched>>

\* a counter machine: -1 advances, others store; the answer is the state reached
S(s, a) == IF a = -1 THEN (s + 1) % V ELSE a
Acts == {-1} \cup 0..V - 1
Init == st = [o \in 1..N |-> 0] /\ reg = 0 /\ h = <<>> /\ touched = TRUE
Do(o, a) ==
  LET s == S(IF Shared /\ a = -1 THEN reg ELSE st[o], a) IN
  /\ st' = Product(st, o, s)
  /\ reg' = s
  /\ h' = Append(h, [o |-> o, a |-> a, out |-> s])
  /\ touched' = Frame(st, st', o)
Next == Len(h) < Depth /\ \E o \in 1..N, a \in Acts : Do(o, a)
Spec == Init /\ [][Next]_vars

RECURSIVE Alone(_, _)
Alone(p, s) == IF p = <<>> THEN <<>> ELSE LET t == S(s, Head(p).a) IN <<t>> \o Alone(Tail(p), t)
FrameHolds == touched
AsAlone == \A o \in 1..N : LET p == Proj(h, o) IN [i \in 1..Len(p) |-> p[i].out] = Alone(p, 0)

\* every pair of names over a small alphabet
Words == UNION {[1..n -> {"a", "b", "_"}] : n \in 1..Names}
Apart  == \A x, y \in Words : Free(x, y) => \A p, q \in Words : Sym(p, x) # Sym(q, y)
\* and the condition is needed: attached names do meet
Needed == \A x, y \in Words : IsSuffix(<<"_">> \o x, y) /\ Len(y) > Len(x) + 1 => \E p, q \in Words : Sym(p, x) = Sym(q, y)
ASSUME Shared \/ (Apart /\ Needed)
=============================================================================
