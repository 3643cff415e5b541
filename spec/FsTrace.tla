------------------------------ MODULE FsTrace ------------------------------
(* C16-C19.  A trace: ref (contents of freshly generated files, by document, driver name and   *)
(* file), nodes (of each document), tree (the world at the start), ev: user actions (taken as  *)
(* they come) and runs of the real program, each with the tree found afterwards.               *)
EXTENDS Fs, Json
C == INSTANCE Cli
S == INSTANCE Scan
CONSTANT Aspects      \* "place" C16, "files" C17, "same" C18, "cli" C19
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, w, bad
vars == <<tr, l, w, bad>>
T == Traces[tr]

Range(s) == {s[i] : i \in 1..Len(s)}
\* a tree as logged: files (sequence of [p, c]), dirs, stuck (sequences of paths)
World(t) == [files |-> [p \in {t.files[i].p : i \in 1..Len(t.files)} |-> LET i == CHOOSE i \in 1..Len(t.files) : t.files[i].p = p IN t.files[i].c],
             dirs |-> Range(t.dirs), stuck |-> Range(t.stuck)]

(*------------------------- a run from its command line -------------------------*)
Lower(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE ch
Chars == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Small == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
Chr(ch) == IF ch >= 65 /\ ch <= 90 THEN Chars[ch - 64] ELSE IF ch >= 97 /\ ch <= 122 THEN Small[ch - 96] ELSE IF ch >= 48 /\ ch <= 57 THEN Digits[ch - 47] ELSE "_"
RECURSIVE Text(_)
Text(cs) == IF cs = <<>> THEN "" ELSE Chr(Head(cs)) \o Text(Tail(cs))
LowerAll(cs) == [i \in 1..Len(cs) |-> Lower(cs[i])]

\* tokens as logged carry raw characters; the driver name they stand for is theirs to derive
Tokens(e) == [i \in 1..Len(e.toks) |-> [k |-> e.toks[i].k, e |-> e.toks[i].e, name |-> S!CName(e.toks[i].ch), out |-> e.toks[i].out, doc |-> e.toks[i].doc]]
RunOf(m) == LET d == m.v["-drvname"][1].name
                doc == m.v["-dbc"][1].doc IN
  [out |-> m.v["-out"][1].out[1], drv |-> Text(d), low |-> Text(LowerAll(d)), doc |-> doc,
   rw |-> "-rw" \in m.f, dd |-> "-driverdir" \in m.f, nc |-> "-noconfig" \in m.f, nf |-> "-nofmon" \in m.f, ni |-> "-noinc" \in m.f,
   nu |-> "-nodeutils" \in m.f, gd |-> "-gendate" \in m.f, nodes |-> IF doc \in DOMAIN T.nodes THEN Range(T.nodes[doc]) ELSE {}]
Key(f) == f[1] \o "/" \o f[2]
RefOf(R, f) == (IF R.doc \in DOMAIN T.ref /\ R.drv \in DOMAIN T.ref[R.doc] /\ Key(f) \in DOMAIN T.ref[R.doc][R.drv]
                THEN T.ref[R.doc][R.drv][Key(f)] ELSE "no reference for " \o Key(f)) \o (IF R.gd THEN "+date" ELSE "")

(*---------------------------------- verdicts ----------------------------------*)
Changed(a, b) == {p \in (DOMAIN a) \cup (DOMAIN b) : p \notin DOMAIN a \/ p \notin DOMAIN b \/ a[p] # b[p]}
\* C16: existing files, and where everything new lies
PlaceOk(v, R, x) ==
  LET TT == Target(v, R)
      ch == Changed(v.files, x.files) IN
  IF ~R.rw /\ \E p \in DOMAIN v.files : p \in ch THEN "an existing file is changed without the rewrite option"
  ELSE IF TT = <<>> THEN (IF ch # {} THEN "something is generated where nothing can be" ELSE "")
  ELSE IF \E p \in ch : ~(Prefix(TT[1], p) /\ Len(p) = Len(TT[1]) + 2 /\ p[Len(p) - 1] \in SubDirs) THEN "a file outside the place of the run's output"
  ELSE IF ~Hampered(v, R, TT[1]) /\ \E f \in Written(v, R, TT[1]) : TT[1] \o f \notin DOMAIN x.files THEN "the output is not complete in its place"
  ELSE IF ~DirsOk(v, R, x.dirs) THEN "directories are made or removed in a wrong place"
  ELSE ""
\* C17: exactly the requested files, each with its own content
FilesOk(v, R, x) ==
  LET Ref(f) == RefOf(R, f)
      O == Outcomes(v, R, Ref) IN
  IF x.files \in O THEN ""
  ELSE IF \A o \in O : \E p \in DOMAIN o : p \notin DOMAIN x.files THEN "a requested file is missing"
  ELSE IF \A o \in O : \E p \in DOMAIN x.files : p \notin DOMAIN o THEN "a file nobody asked for"
  ELSE "a file has a wrong content"
\* C18: what is written is what a fresh run writes
SameOk(v, R, x) ==
  LET TT == Target(v, R) IN
  IF TT = <<>> \/ Hampered(v, R, TT[1]) THEN ""
  ELSE IF \E f \in Written(v, R, TT[1]) : TT[1] \o f \in DOMAIN x.files /\ x.files[TT[1] \o f] # RefOf(R, f)
       THEN "a file differs from what a fresh run generates: " \o ToString({<<TT[1] \o f, x.files[TT[1] \o f], RefOf(R, f)>> : f \in {f \in Written(v, R, TT[1]) : TT[1] \o f \in DOMAIN x.files /\ x.files[TT[1] \o f] # RefOf(R, f)}})
       ELSE ""
First(s) == LET I == {i \in 1..Len(s) : s[i] # ""} IN IF I = {} THEN "" ELSE s[CHOOSE i \in I : \A j \in I : i <= j]
OneRun(v, e, x) ==
  LET m == C!Meaning(Tokens(e)) IN
  IF ~C!Generates(m)
  THEN IF Aspects \cap {"cli", "place", "files"} # {} /\ (x.files # v.files \/ x.dirs # v.dirs) THEN "files are touched although the command line is incomplete"
       ELSE IF "cli" \in Aspects /\ ~e.help THEN "no help on an incomplete command line"
       ELSE ""
  ELSE LET R == RunOf(m) IN
  IF "cli" \in Aspects /\ e.help THEN "help instead of code"
  ELSE IF R.doc \notin DOMAIN T.ref     \* no such input
  THEN IF x.files # v.files \/ x.dirs # v.dirs THEN "files are touched although there is no input" ELSE ""
  ELSE First(<<IF "place" \in Aspects THEN PlaceOk(v, R, x) ELSE "",
               IF "files" \in Aspects \/ "cli" \in Aspects THEN FilesOk(v, R, x) ELSE "",
               IF "same" \in Aspects THEN SameOk(v, R, x) ELSE "",
               IF "cli" \in Aspects /\ ~DirsOk(v, R, x.dirs) THEN "directories are made in a wrong place" ELSE "">>)

\* runs at the same time: as if one after the other in some order
RECURSIVE Serial(_, _, _)
Serial(v, RS, x) ==
  IF RS = <<>> THEN v.files = x.files
  ELSE \E i \in 1..Len(RS) :
         LET R == RS[i]
             Ref(f) == RefOf(R, f)
             TT == Target(v, R)
             rest == [j \in 1..(Len(RS) - 1) |-> IF j < i THEN RS[j] ELSE RS[j + 1]]
         IN \E fs \in Outcomes(v, R, Ref) :
              Serial([v EXCEPT !.files = fs, !.dirs = v.dirs \cup (IF TT = <<>> THEN {} ELSE {SubSeq(TT[1], 1, k) : k \in 1..Len(TT[1])} \cup {TT[1] \o <<s>> : s \in SubDirs})], rest, x)

\* a run whose directories cannot be made may end as it likes
HamperedRun(v, e) == LET m == C!Meaning(Tokens(e)) IN
  C!Generates(m) /\ LET R == RunOf(m)
                        TT == Target(v, R) IN TT = <<>> \/ Hampered(v, R, TT[1])
Verdict(v, e, x) ==
  IF e.op = "user" THEN ""
  ELSE IF e.op = "run" THEN (IF e.end # "exit" THEN (IF HamperedRun(v, e) THEN OneRun(v, e, x) ELSE "the generator does not end normally") ELSE OneRun(v, e, x))
  ELSE IF e.op = "kill" THEN LET R == RunOf(C!Meaning(Tokens(e))) IN IF KilledOk(v, R, x.files, x.dirs) THEN "" ELSE "a killed run damages other files"
  ELSE LET RS == [i \in 1..Len(e.runs) |-> RunOf(C!Meaning(Tokens(e.runs[i])))] IN IF Serial(v, RS, x) THEN "" ELSE "runs at the same time disturb each other"

Init == tr \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ w = World(T.tree)
Next == /\ bad = "" /\ l <= Len(T.ev)
        /\ LET e == T.ev[l]
               x == World(e.tree)
           IN w' = x /\ bad' = Verdict(w, e, x)
        /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
