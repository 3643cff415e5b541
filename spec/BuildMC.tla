------------------------------- MODULE BuildMC -------------------------------
(* A project directory over time: whole packages and single files of several generations are   *)
(* copied into it; whatever still builds is consistent.                                        *)
EXTENDS Build
CONSTANT Vers
Files == {"core.h", "core.c", "util.c", "util.h", "fmon.h", "fmon.c"}
VARIABLE dir
V == Vers \X Vers
Init == \E v \in V : dir = [f \in Files |-> v]
Package == \E v \in V : dir' = [f \in Files |-> v]
Piece == \E f \in {"core.h", "core.c", "util.c"}, v \in V : dir' = [dir EXCEPT ![f] = v]
Next == Package \/ Piece
Spec == Init /\ [][Next]_dir
Builds == Compiles("core", dir["core.c"], dir["core.h"]) /\ Compiles("util", dir["util.c"], dir["core.h"])
NoMix == Builds => dir["core.c"] = dir["core.h"] /\ dir["util.c"] = dir["core.h"]
GuardExact == \A a, b \in V : GuardFires(a, b) <=> ~Compiles("core", a, b)
PackageBuilds == [][(\A f, g \in Files : dir'[f] = dir'[g]) => Builds']_dir
=============================================================================
