------------------------------- MODULE FsGen -------------------------------
(* Random histories for the real generator: what to do next is drawn in the state the          *)
(* specification predicts, so that users meet the files earlier runs left behind.              *)
EXTENDS Fs, Json
CONSTANTS Kinds,      \* actions that may happen
          Outs, Drivers, Docs, Depth,
          Plain       \* TRUE: only -rw and -driverdir vary
VARIABLES w, h, kd
vars == <<w, h, kd>>
Pick(S) == RandomElement(S)
\* with an argument, for TLC evaluates constant definitions once
Half(x) == Pick(BOOLEAN)
Sel(p) == IF Plain THEN FALSE ELSE p
Rarely(x) == Pick(1..4) = 1
MkRun(rw) == [out |-> Pick(Outs), drv |-> Pick(Drivers), doc |-> Pick(Docs), rw |-> rw, dd |-> Pick(1..3) = 1,
              nc |-> Sel(Half(1)), nf |-> Sel(Half(2)), ni |-> Sel(Half(3)), nu |-> Sel(Half(4)), gd |-> Sel(Rarely(1))]
Full(r) == [out |-> r.out, drv |-> r.drv, low |-> r.drv, rw |-> r.rw, dd |-> r.dd, nc |-> r.nc, nf |-> r.nf, ni |-> r.ni, nu |-> r.nu, nodes |-> {"n0", "n1"}]
Tag(f) == "g"
NewDirs(T) == IF T = <<>> THEN {} ELSE {SubSeq(T[1], 1, i) : i \in 1..Len(T[1])} \cup {T[1] \o <<s>> : s \in SubDirs}
Do(v, r) == LET R == Full(r)
                T == Target(v, R)
            IN IF T = <<>> THEN v
               ELSE IF Hampered(v, R, T[1]) THEN [v EXCEPT !.dirs = v.dirs \cup {d \in NewDirs(T) : CanMakeDir(v, d)}]
               ELSE [v EXCEPT !.files = After(v, R, T[1], Tag), !.dirs = v.dirs \cup NewDirs(T)]
Init == w = [files |-> <<>>, dirs |-> {<<>>, <<"o1">>, <<"o2">>}, stuck |-> {}] /\ h = <<>> /\ kd = ""
Under == {p \in DOMAIN w.files : p # <<>>}
\* files a rewriting run could meet
Bases == {p \in w.dirs : p # <<>> /\ p \notin w.stuck /\ (p \in Outs \/ Parent(p) \in Outs)}
Names(d) == Requested(Full([out |-> <<>>, drv |-> d, rw |-> TRUE, dd |-> FALSE, nc |-> FALSE, nf |-> FALSE, ni |-> FALSE, nu |-> FALSE]))
Add(a) == h' = Append(h, a)
Skip == UNCHANGED <<w, h>>
Act(k) ==
  CASE k \in {"run", "run2"} -> LET r == MkRun(FALSE) IN w' = Do(w, r) /\ Add([a |-> "run", r |-> r])
    [] k \in {"rw", "rw2"} -> LET r == MkRun(TRUE) IN w' = Do(w, r) /\ Add([a |-> "run", r |-> r])
    [] k = "again" -> LET I == {i \in 1..Len(h) : h[i].a = "run"} IN
         IF I = {} THEN Skip ELSE LET r0 == h[Pick(I)].r
                                      r == [r0 EXCEPT !.rw = TRUE, !.doc = Pick(Docs), !.nc = Sel(Half(1)), !.nf = Sel(Half(2)), !.ni = Sel(Half(3))]
                                  IN w' = Do(w, r) /\ Add([a |-> "run", r |-> r])
    [] k = "par" -> LET r1 == MkRun(FALSE)
                        o == r1.out
                        r2 == [MkRun(FALSE) EXCEPT !.out = o]
                        r3 == [MkRun(FALSE) EXCEPT !.out = o, !.dd = r1.dd]
                    IN w' = Do(Do(Do(w, r1), r2), r3) /\ Add([a |-> "par", rs |-> <<r1, r2, r3>>])
    [] k = "kill" -> LET r == MkRun(Half(1)) IN w' = Do(w, r) /\ Add([a |-> "kill", r |-> r])
    [] k = "edit" -> IF Under = {} THEN Skip ELSE LET p == Pick(Under) IN w' = w /\ Add([a |-> "edit", p |-> p])
    [] k = "del" -> IF Under = {} THEN Skip ELSE LET p == Pick(Under) IN w' = [w EXCEPT !.files = [q \in (DOMAIN w.files) \ {p} |-> w.files[q]]] /\ Add([a |-> "del", p |-> p])
    [] k = "ro" -> IF Under \ w.stuck = {} THEN Skip ELSE LET p == Pick(Under \ w.stuck) IN w' = [w EXCEPT !.stuck = w.stuck \cup {p}] /\ Add([a |-> "ro", p |-> p])
    [] k = "rodir" -> LET D == w.dirs \ (w.stuck \cup {<<>>}) IN
         IF D = {} THEN Skip ELSE LET p == Pick(D) IN w' = [w EXCEPT !.stuck = w.stuck \cup {p}] /\ Add([a |-> "ro", p |-> p])
    [] k = "full" -> IF Under \ w.stuck = {} THEN Skip ELSE LET p == Pick(Under \ w.stuck) IN
                     IF Parent(p) \in w.stuck THEN Skip ELSE w' = [w EXCEPT !.stuck = w.stuck \cup {p}, !.files[p] = "link"] /\ Add([a |-> "full", p |-> p])
    [] k = "dirat" -> IF Bases = {} THEN Skip ELSE
                        LET b == Pick(Bases)
                            f == Pick(Names(Pick(Drivers)))
                            p == b \o f
                        IN IF p \in w.stuck \/ p \in w.dirs \/ Parent(p) \in w.stuck \/ ~CanMakeDir(w, Parent(p)) THEN Skip
                           ELSE w' = [w EXCEPT !.files = [q \in (DOMAIN w.files) \ {p} |-> w.files[q]], !.dirs = w.dirs \cup {Parent(p), p}] /\ Add([a |-> "dirat", p |-> p])
    [] k = "subfile" -> IF Bases = {} THEN Skip ELSE LET p == Pick(Bases) \o <<Pick(SubDirs)>> IN
                        IF Exists(w, p) THEN Skip ELSE w' = [w EXCEPT !.files = (p :> "u") @@ w.files] /\ Add([a |-> "occ", p |-> p, d |-> FALSE])
    [] k = "occ" -> IF Bases = {} THEN Skip ELSE
                      LET p == Pick(Bases) \o <<Pick({Num(i) : i \in 0..6} \cup {"0", "00", "1000", "0000"})>>
                          d == Half(1)
                      IN IF Exists(w, p) THEN Skip
                         ELSE w' = (IF d THEN [w EXCEPT !.dirs = w.dirs \cup {p}] ELSE [w EXCEPT !.files = (p :> "u") @@ w.files]) /\ Add([a |-> "occ", p |-> p, d |-> d])
    [] k = "rmtree" -> LET C == {p \in w.dirs : Len(p) >= 2 /\ \A s \in w.stuck : ~Prefix(p, s) /\ s # Parent(p)} IN
         IF C = {} THEN Skip ELSE LET p == Pick(C) IN
            w' = [w EXCEPT !.dirs = {d \in w.dirs : ~Prefix(p, d)}, !.files = [q \in {f \in DOMAIN w.files : ~Prefix(p, f)} |-> w.files[q]]] /\ Add([a |-> "rmtree", p |-> p])
    [] OTHER -> Skip
\* the kind first, then the action
Next == /\ Len(h) < Depth
        /\ IF kd = "" THEN kd' \in Kinds /\ UNCHANGED <<w, h>> ELSE Act(kd) /\ kd' = ""
Spec == Init /\ [][Next]_vars
Emit == kd = "" /\ Len(h) = Depth => PrintT("@@" \o ToJson(h))
=============================================================================
