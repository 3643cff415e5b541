------------------------------- MODULE CliMC -------------------------------
(* All command lines of a bounded length.                                                      *)
EXTENDS Cli
CONSTANTS MaxLen, Opts
VARIABLE toks
Val(x) == [k |-> "", e |-> FALSE, name |-> x]
Letters == {[k |-> o, e |-> FALSE, name |-> <<>>] : o \in Opts} \cup {Val(<<97>>), Val(<<98>>), Val(<<>>), [k |-> "", e |-> TRUE, name |-> <<>>]}
Init == toks = <<>>
Next == Len(toks) < MaxLen /\ \E t \in Letters : toks' = Append(toks, t)
Spec == Init /\ [][Next]_toks
MachineIsMeaning == Machine(toks) = Meaning(toks)
\* the tokens cut into groups of an option and what follows it; exchanging neighbours changes nothing
Starts == {i \in 1..Len(toks) : IsOpt(toks[i])}
NextStart(i) == LET C == {j \in Starts : j > i} IN IF C = {} THEN Len(toks) + 1 ELSE CHOOSE j \in C : \A x \in C : j <= x
Swap(i) == LET j == NextStart(i)
               k == NextStart(j)
           IN SubSeq(toks, 1, i - 1) \o SubSeq(toks, j, k - 1) \o SubSeq(toks, i, j - 1) \o SubSeq(toks, k, Len(toks))
OrderFree == \A i \in Starts : LET j == NextStart(i) IN j <= Len(toks) /\ toks[i].k # toks[j].k => Meaning(Swap(i)) = Meaning(toks)
\* an argument nobody asked for changes nothing (unless it takes an option's place in front of a value)
UnknownIgnored == Meaning(Append(toks, [k |-> "-zz", e |-> FALSE, name |-> <<>>])) = Meaning(toks)
HelpWins == "-help" \in Meaning(toks).f => ~Generates(Meaning(toks))
=============================================================================
