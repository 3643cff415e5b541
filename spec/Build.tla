-------------------------------- MODULE Build --------------------------------
(* Building with generated files.  Every file comes from some generation; the core header      *)
(* announces the version of its DBC, core and utility sources insist on theirs.                *)
EXTENDS Integers, Sequences, FiniteSets
Guarded == {"core", "util"}
\* unit (core, util, fmon, client...) of version src compiled with a core header of version hdr
Compiles(unit, src, hdr) == unit \in Guarded => src = hdr
\* what the guard in the source tests: it fails when one of the two numbers differs
GuardFires(src, hdr) == hdr[1] # src[1] \/ hdr[2] # src[2]
=============================================================================
