--------------------------------- MODULE Fs ---------------------------------
(* The file system as far as the generator is concerned, and what one run does to it.          *)
(*   w.files  path -> content (an opaque string)          path: sequence of names              *)
(*   w.dirs   existing directories                                                             *)
(*   w.stuck  files that cannot be written, directories in which nothing can be made           *)
(* A run R: out (path), dd/rw/nc/nf/ni/nu (switches), drv (driver name), low (the same in      *)
(* lower case), nodes (lower-case node names of the document), and content Ref[file].          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT MaxNum      \* the numbers are 0..MaxNum
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Exists(w, p) == p \in w.dirs \/ p \in DOMAIN w.files
RECURSIVE CanMakeDir(_, _)
CanMakeDir(w, p) == \/ p \in w.dirs
                    \/ /\ p # <<>> /\ p \notin DOMAIN w.files
                       /\ CanMakeDir(w, Parent(p)) /\ Parent(p) \notin w.stuck
CanWrite(w, p) == /\ p \notin w.dirs /\ p \notin w.stuck /\ CanMakeDir(w, Parent(p))
                  /\ p \in DOMAIN w.files \/ Parent(p) \notin w.stuck

Num(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE FirstFree(_, _, _)
FirstFree(w, base, n) == IF n > MaxNum THEN -1 ELSE IF Exists(w, base \o <<Num(n)>>) THEN FirstFree(w, base, n + 1) ELSE n

SubDirs == {"lib", "usr", "inc", "conf", "butl"}
Requested(R) ==
  {<<"lib", R.low \o ".h">>, <<"lib", R.low \o ".c">>, <<"lib", R.low \o "-fmon.h">>}
  \cup (IF R.nf THEN {} ELSE {<<"usr", R.low \o "-fmon.c">>})
  \cup (IF R.ni THEN {} ELSE {<<"inc", "canmonitorutil.h">>})
  \cup (IF R.nc THEN {} ELSE {<<"conf", "dbccodeconf.h">>, <<"conf", R.low \o "-config.h">>})
  \cup (IF R.nu THEN UNION {{<<"butl", n \o "_" \o R.low \o "-binutil.h">>, <<"butl", n \o "_" \o R.low \o "-binutil.c">>} : n \in R.nodes}
        ELSE {<<"butl", R.low \o "-binutil.h">>, <<"butl", R.low \o "-binutil.c">>})

Base(R) == IF R.dd THEN R.out \o <<R.drv>> ELSE R.out
\* where a run puts its files: <<>> or <<directory>>
Target(w, R) ==
  IF ~CanMakeDir(w, Base(R)) THEN <<>>
  ELSE IF R.rw THEN <<Base(R)>>
  ELSE LET n == FirstFree(w, Base(R), 0)
       IN IF n = -1 \/ Base(R) \in w.stuck THEN <<>> ELSE <<Base(R) \o <<Num(n)>>>>
\* a run may give up (or do what it can) when one of its directories cannot be made
Hampered(w, R, t) == \E s \in SubDirs : ~CanMakeDir(w, t \o <<s>>)

Written(w, R, t) == {f \in Requested(R) : CanWrite(w, t \o f)}
After(w, R, t, Ref(_)) ==
  LET W == {t \o f : f \in Written(w, R, t)} IN
  [p \in (DOMAIN w.files) \cup W |-> IF p \in W THEN Ref(SubSeq(p, Len(t) + 1, Len(p))) ELSE w.files[p]]
\* the file contents a run may leave
Outcomes(w, R, Ref(_)) ==
  LET T == Target(w, R) IN
  IF T = <<>> THEN {w.files}
  ELSE {After(w, R, T[1], Ref)} \cup (IF Hampered(w, R, T[1]) THEN {w.files} ELSE {})
\* and the directories
DirsOk(w, R, dirs) ==
  LET T == Target(w, R)
      b == IF T = <<>> THEN Base(R) ELSE T[1] IN
  /\ w.dirs \subseteq dirs
  /\ \A p \in dirs \ w.dirs : Prefix(p, b) \/ (T # <<>> /\ Len(p) = Len(b) + 1 /\ Prefix(b, p) /\ p[Len(p)] \in SubDirs)
  /\ T # <<>> /\ ~Hampered(w, R, b) => b \in dirs
\* a run that is killed leaves at most pieces of its own files
KilledOk(w, R, files, dirs) ==
  LET T == Target(w, R)
      mine == IF T = <<>> THEN {} ELSE {T[1] \o f : f \in Requested(R)} IN
  /\ DOMAIN w.files \subseteq DOMAIN files
  /\ \A p \in DOMAIN files : p \notin mine => p \in DOMAIN w.files /\ files[p] = w.files[p]
  /\ w.dirs \subseteq dirs
=============================================================================
