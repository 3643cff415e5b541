-------------------------------- MODULE FsMC --------------------------------
(* Histories of runs and user actions in a small world; the guarantees as properties of steps. *)
EXTENDS Fs
CONSTANTS Drivers, Depth
VARIABLES w, n, last
vars == <<w, n, last>>
Runs == [out : {<<"o">>}, drv : Drivers, rw : BOOLEAN, dd : BOOLEAN, nc : BOOLEAN, nf : {FALSE}, ni : {FALSE}, nu : {FALSE}]
Full(r) == [out |-> r.out, drv |-> r.drv, low |-> r.drv, rw |-> r.rw, dd |-> r.dd, nc |-> r.nc, nf |-> r.nf, ni |-> r.ni, nu |-> r.nu, nodes |-> {"n"}]
Init == w = [files |-> <<>>, dirs |-> {<<>>, <<"o">>}, stuck |-> {}] /\ n = 0 /\ last = [u |-> TRUE]
NewDirs(R, T) == IF T = <<>> THEN {} ELSE {SubSeq(T[1], 1, i) : i \in 1..Len(T[1])} \cup {T[1] \o <<s>> : s \in SubDirs}
Run == \E r \in Runs : LET R == Full(r)
                           Ref(f) == R.drv \o f[1] \o f[2]
                           T == Target(w, R)
                       IN /\ \E fs \in Outcomes(w, R, Ref) : w' = [w EXCEPT !.files = fs, !.dirs = IF fs = w.files THEN w.dirs ELSE w.dirs \cup NewDirs(R, T)]
                          /\ last' = [u |-> FALSE, R |-> R, T |-> T]
Interesting == {p \in DOMAIN w.files : p[Len(p)] \in {"a.c", "dbccodeconf.h"}}
Edit == \E p \in Interesting : w' = [w EXCEPT !.files[p] = "user"] /\ last' = [u |-> TRUE]
Remove == \E p \in Interesting : w' = [w EXCEPT !.files = [q \in (DOMAIN w.files) \ {p} |-> w.files[q]]] /\ last' = [u |-> TRUE]
Lock == \E p \in Interesting \cup w.dirs : p # <<>> /\ p \notin w.stuck /\ w' = [w EXCEPT !.stuck = w.stuck \cup {p}] /\ last' = [u |-> TRUE]
Occupy == \E k \in 0..MaxNum : LET p == <<"o", Num(k)>> IN ~Exists(w, p) /\ (w' = [w EXCEPT !.files = (p :> "user") @@ w.files] \/ w' = [w EXCEPT !.dirs = w.dirs \cup {p}]) /\ last' = [u |-> TRUE]
Next == n < Depth /\ n' = n + 1 /\ (Run \/ Edit \/ Remove \/ Lock \/ Occupy)
Spec == Init /\ [][Next]_vars

IsRun == ~last'.u
R1 == last'.R
T1 == last'.T
Changed == {p \in (DOMAIN w.files) \cup (DOMAIN w'.files) : p \notin DOMAIN w.files \/ p \notin DOMAIN w'.files \/ w.files[p] # w'.files[p]}
\* C16
NothingTouched == [][IsRun /\ ~R1.rw => \A p \in DOMAIN w.files : p \in DOMAIN w'.files /\ w'.files[p] = w.files[p]]_vars
FreshPlace == [][IsRun /\ ~R1.rw /\ T1 # <<>> => ~Exists(w, T1[1]) /\ Len(T1[1]) = (IF R1.dd THEN 3 ELSE 2)
                                                /\ \A k \in 0..MaxNum : ~Exists(w, Base(R1) \o <<Num(k)>>) => Num(k) = T1[1][Len(T1[1])] \/ \E j \in 0..(k - 1) : Num(j) = T1[1][Len(T1[1])]]_vars
\* C17
OnlyInside == [][IsRun => \A p \in Changed : T1 # <<>> /\ Prefix(T1[1], p) /\ SubSeq(p, Len(T1[1]) + 1, Len(p)) \in Requested(R1)]_vars
NothingLost == [][IsRun => DOMAIN w.files \subseteq DOMAIN w'.files]_vars
SuppressedSurvive == [][IsRun /\ R1.nc => \A p \in Changed : p[Len(p) - 1] # "conf"]_vars
\* well-formed worlds: every file and directory lies in a directory
Tree == \A p \in (DOMAIN w.files) \cup w.dirs : p = <<>> \/ Parent(p) \in w.dirs
=============================================================================
