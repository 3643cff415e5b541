-------------------------------- MODULE Cli --------------------------------
(* The command line.  A token is an option [k |-> "-dbc", ...] or a value [k |-> "", ...];     *)
(* e marks the empty text.  Machine: one pass over the tokens.  Meaning: what the options say  *)
(* taken together.  CliMC shows that they agree and that order does not matter.                *)
EXTENDS Integers, Sequences, FiniteSets
Flags == {"-rw", "-nodeutils", "-help", "-noinc", "-noconfig", "-nofmon", "-driverdir", "-gendate"}
Valued == {"-dbc", "-out", "-drvname"}
IsOpt(t) == t.k # ""

(*------------------------------- the machine -------------------------------*)
\* s.v[o]: the value token of a valued option or <<>>; s.f: the flags seen
None == [v |-> [o \in Valued |-> <<>>], f |-> {}]
Take(s, o, val) == IF o \in Valued THEN [s EXCEPT !.v[o] = val] ELSE IF o \in Flags THEN [s EXCEPT !.f = s.f \cup {o}] ELSE s
RECURSIVE Pass(_, _, _)
Pass(toks, i, s) ==
  IF i > Len(toks) THEN s
  ELSE IF ~IsOpt(toks[i]) THEN Pass(toks, i + 1, s)
  ELSE IF i < Len(toks) /\ ~IsOpt(toks[i + 1])
       THEN Pass(toks, i + 2, Take(s, toks[i].k, IF toks[i + 1].e THEN <<>> ELSE <<toks[i + 1]>>))
       ELSE Pass(toks, i + 1, Take(s, toks[i].k, <<>>))
Machine(toks) == Pass(toks, 1, None)

(*------------------------------- the meaning -------------------------------*)
LastOf(toks, o) == LET C == {i \in 1..Len(toks) : toks[i].k = o} IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : j <= i
ValueOf(toks, o) ==
  LET i == LastOf(toks, o) IN
  IF i = 0 \/ i = Len(toks) THEN <<>> ELSE IF IsOpt(toks[i + 1]) \/ toks[i + 1].e THEN <<>> ELSE <<toks[i + 1]>>
Meaning(toks) == [v |-> [o \in Valued |-> ValueOf(toks, o)], f |-> {o \in Flags : LastOf(toks, o) # 0}]

\* a value token also says what it would be as a driver name (name: the characters that remain)
Complete(m) == \A o \in Valued : m.v[o] # <<>>
Generates(m) == Complete(m) /\ m.v["-drvname"][1].name # <<>> /\ "-help" \notin m.f
=============================================================================
