-------------------------------- MODULE Side --------------------------------
(* Objects side by side.  A program has many objects: message instances and receive structures *)
(* of several generated drivers.  Each object is a machine of its own (Step, Out); the program *)
(* is their product: a call changes the object it is given and no other, and what it answers   *)
(* depends on that object alone.  Then the history of an object in the program is its history  *)
(* alone (SideMC).                                                                             *)
EXTENDS Integers, Sequences

\* what the program does at a call `a` to object `o` in state st: only st[o] changes
Product(st, o, s) == [st EXCEPT ![o] = s]
\* the observer's form: nothing but the owner (0: nobody) may have another content afterwards
Frame(before, after, own) == \A i \in DOMAIN before : i # own => after[i] = before[i]
\* the part of a history that belongs to one object
Proj(h, o) == LET P(e) == e.o = o IN SelectSeq(h, P)

(*------------------------------- names of drivers ------------------------------*)
\* symbols are a name, "_" and the driver's name; two drivers' symbols differ whatever the names
\* are unless one driver's name is the other's with something attached by an underscore
Sym(name, drv) == name \o <<"_">> \o drv
IsSuffix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, Len(y) - Len(x) + 1, Len(y)) = x
IsPrefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
Attached(x, y) == IsSuffix(<<"_">> \o x, y) \/ IsPrefix(x \o <<"_">>, y)
Free(x, y)     == x # y /\ ~Attached(x, y) /\ ~Attached(y, x)
=============================================================================
