------------------------------ MODULE ScanDocs ------------------------------
(* All small documents, built from abstract lines; used to compare the line machine with a     *)
(* declarative reading of the document, and as a generator of documents for the real parser.   *)
(* Numbers name things: message i, signal j, message NM+1 is never defined, NM+2 is rejected.  *)
EXTENDS Scan, FiniteSets, Json, TLC
CONSTANTS NM, NS,     \* messages, signals per message
          Kinds,      \* kinds of lines to use
          Defs,       \* start behind the definition of all messages and signals
          MaxLen, MinEmit
VARIABLE doc
\* every even message is the extended twin of the one before; the rejected one has the first one's number
Halves(i) == IF i = NM + 2 THEN <<8192, 1>> ELSE IF i % 2 = 0 THEN <<32768, i - 1>> ELSE <<0, i>>
One == [tiny |-> FALSE, dot |-> FALSE, w |-> One8, nano |-> Z(FALSE, Giga)]
Two == [tiny |-> FALSE, dot |-> FALSE, w |-> <<2, 0, 0, 0, 0, 0, 0, 0>>, nano |-> Z(FALSE, Giga)]
Nil == [tiny |-> FALSE, dot |-> FALSE, w |-> Zero8, nano |-> Z(FALSE, <<>>)]
N(s, i) == s \o ToString(i)
Ids == 1..(NM + 2)
LettersOf(K) ==
  LET On(k, S) == IF k \in K THEN S ELSE {} IN
  On("ver", {[k |-> "ver", hi |-> 1, lo |-> 2, q |-> TRUE]}) \cup
  On("bo", {[k |-> "bo", i |-> i, n |-> N("M", i), id |-> Halves(i), dlc |-> 8, ok |-> TRUE, tx |-> N("T", i), q |-> FALSE] : i \in 1..NM}) \cup
  On("bad", {[k |-> "bo", i |-> NM + 2, n |-> N("M", NM + 2), id |-> Halves(NM + 2), dlc |-> 8, ok |-> o, tx |-> "T9", q |-> FALSE] : o \in BOOLEAN}) \cup
  On("sg", {[k |-> "sg", j |-> j, n |-> N("S", j), s |-> 8 * (j - 1), l |-> 8, m |-> FALSE, g |-> FALSE, fac |-> IF j = 2 THEN Two ELSE One, off |-> Nil,
             recs |-> <<N("R", j)>>, ok |-> TRUE, q |-> TRUE] : j \in 1..NS}) \cup
  On("sgbad", {[k |-> "sg", j |-> NS + 1, n |-> N("S", NS + 1), s |-> 0, l |-> 8, m |-> FALSE, g |-> FALSE, fac |-> One, off |-> Nil, recs |-> <<"R9">>, ok |-> FALSE, q |-> TRUE]}) \cup
  On("tx", {[k |-> "tx", i |-> i, id |-> Halves(i), nodes |-> <<N("X", i), N("T", 1)>>, q |-> FALSE] : i \in Ids}) \cup
  On("cyc", {[k |-> "cyc", i |-> i, id |-> Halves(i), v |-> 100 + i, q |-> TRUE] : i \in Ids}) \cup
  On("cm", {[k |-> "cm", i |-> i, j |-> 0, tgt |-> "bo", id |-> Halves(i), sig |-> "", toks |-> <<N("tokM", i)>>, roll |-> FALSE, csm |-> FALSE, closed |-> c, q |-> TRUE] : i \in Ids, c \in BOOLEAN}) \cup
  On("cs", {[k |-> "cm", i |-> i, j |-> j, tgt |-> "sg", id |-> Halves(i), sig |-> N("S", j), toks |-> <<N("tokS", i) \o ToString(j)>>,
             roll |-> f = 1, csm |-> f = 2, closed |-> c, q |-> TRUE] : i \in Ids, j \in 1..(NS + 1), f \in 0..2, c \in BOOLEAN}) \cup
  On("co", {[k |-> "cm", i |-> 0, j |-> 0, tgt |-> "other", id |-> <<0, 0>>, sig |-> "", toks |-> <<"tokO">>, roll |-> FALSE, csm |-> FALSE, closed |-> c, q |-> TRUE] : c \in BOOLEAN}) \cup
  On("tl", {[k |-> "tl", toks |-> <<>>, roll |-> FALSE, csm |-> FALSE, closes |-> c, q |-> FALSE] : c \in BOOLEAN}) \cup
  On("val", {[k |-> "val", i |-> i, j |-> j, id |-> Halves(i), sig |-> N("S", j), ents |-> <<<<Zero8, <<65>>>>>>, q |-> TRUE] : i \in Ids, j \in 1..(NS + 1)}) \cup
  On("junk", {[k |-> "junk", q |-> FALSE]})
Letters == LettersOf(Kinds)

Open(d) == LET f[i \in 0..Len(d)] == IF i = 0 THEN FALSE ELSE IF f[i - 1] THEN ~Closes(d[i]) ELSE Opens(d[i]) IN f[Len(d)]
Outside(d) == SelectSeq(d, LAMBDA x : TRUE)
Live(d) == {i \in 1..Len(d) : ~Open(SubSeq(d, 1, i - 1))}      \* lines that are not text of a comment
Same(x, y, kind) == x.k = kind /\ y.k = kind
\* one definition per message, one signal per name, one annotation per target and kind; additional
\* transmitters follow the message and no signals follow them; no comment is opened inside another
AllowedIn(d, L, op, x) ==
  LET past == {d[i] : i \in L}
      heads == {i \in L : d[i].k \in {"bo", "tx"}}
      cur == {i \in L : \A h \in heads : i >= h}
  IN IF op THEN x.k # "cm" ELSE
     IF x.k = "tl" THEN FALSE
     ELSE IF x.k = "bo" THEN \A y \in past : y.k # "bo" \/ y.i # x.i
     ELSE IF x.k = "sg" THEN (heads = {} \/ \A i \in cur : d[i].k # "tx") /\ \A i \in cur : d[i].k # "sg" \/ d[i].j # x.j
     ELSE IF x.k = "tx" THEN (x.i > NM \/ \E y \in past : y.k = "bo" /\ y.i = x.i) /\ \A y \in past : y.k # "tx" \/ y.i # x.i
     ELSE IF x.k = "ver" THEN \A y \in past : y.k # "ver"
     ELSE IF x.k = "cyc" THEN \A y \in past : y.k # "cyc" \/ y.i # x.i
     ELSE IF x.k = "val" THEN \A y \in past : y.k # "val" \/ y.i # x.i \/ y.j # x.j
     ELSE IF x.k = "cm" THEN \A y \in past : y.k # "cm" \/ y.tgt # x.tgt \/ x.tgt = "other" \/ y.i # x.i \/
                               (IF x.tgt = "bo" THEN FALSE ELSE y.j # x.j /\ ~(y.roll /\ x.roll) /\ ~(y.csm /\ x.csm))
     ELSE TRUE
Allowed(d, X) == LET L == Live(d)
                     op == Open(d)
                 IN {x \in X : AllowedIn(d, L, op, x)}
Def(i, j) == CHOOSE x \in LettersOf({"bo", "sg"}) : IF j = 0 THEN x.k = "bo" /\ x.i = i /\ x.ok ELSE x.k = "sg" /\ x.j = j
Defined == LET f[n \in 0..(NM * (NS + 1))] == IF n = 0 THEN <<>> ELSE Append(f[n - 1], Def((n - 1) \div (NS + 1) + 1, (n - 1) % (NS + 1))) IN f[NM * (NS + 1)]
Init == doc = IF Defs THEN Defined ELSE <<>>
Next == /\ Len(doc) < MaxLen
        /\ \E x \in Allowed(doc, Letters) : doc' = Append(doc, x)
Spec == Init /\ [][Next]_doc

\* declarative reading
Complete == ~Open(doc)
DefsOf(i) == {k \in Live(doc) : doc[k].k = "bo" /\ Accept(doc[k]) /\ doc[k].i = i}
EndOf(k) == LET c == {h \in Live(doc) : h > k /\ doc[h].k \in {"bo", "tx"}} IN IF c = {} THEN Len(doc) + 1 ELSE CHOOSE h \in c : \A g \in c : h <= g
SigsAfter(k) == {doc[h].n : h \in {h \in Live(doc) : h > k /\ h < EndOf(k) /\ doc[h].k = "sg" /\ doc[h].ok}}
CommentEnd(k) == IF doc[k].closed THEN k ELSE CHOOSE h \in (k + 1)..Len(doc) : Closes(doc[h]) /\ \A g \in (k + 1)..(h - 1) : ~Closes(doc[g])
Understood(k) == \A g \in (k + 1)..CommentEnd(k) : ~doc[g].q
CommentsOn(i, j) == {k \in Live(doc) : doc[k].k = "cm" /\ doc[k].tgt = (IF j = 0 THEN "bo" ELSE "sg") /\ doc[k].i = i /\ doc[k].j = j /\ Understood(k)}
Agree ==
  Complete =>
  LET R == Read(doc)
      Named(i) == {k \in 1..Len(R.msgs) : R.msgs[k].n = N("M", i)}
  IN /\ Cardinality(DefsOf(NM + 2)) = 0
     /\ Len(R.msgs) = Cardinality(UNION {DefsOf(i) : i \in 1..NM})
     /\ \A i \in 1..NM : Cardinality(Named(i)) = Cardinality(DefsOf(i))
     /\ \A i \in 1..NM : \A p \in Named(i) :
          LET M == R.msgs[p]
              k == CHOOSE k \in DefsOf(i) : TRUE
              lines(kind) == {doc[h] : h \in {h \in Live(doc) : doc[h].k = kind /\ doc[h].i = i}}
          IN /\ {M.sigs[q].n : q \in 1..Len(M.sigs)} = SigsAfter(k)
             /\ M.tx = {N("T", i)} \cup UNION {SetOf(x.nodes) : x \in lines("tx")}
             /\ M.cyc = (IF lines("cyc") = {} THEN 0 ELSE 100 + i)
             /\ M.toks = UNION {SetOf(doc[h].toks) : h \in CommentsOn(i, 0)}
             /\ \A q \in 1..Len(M.sigs) : LET j == CHOOSE j \in 1..NS : M.sigs[q].n = N("S", j) IN
                  /\ M.sigs[q].toks = UNION {SetOf(doc[h].toks) : h \in CommentsOn(i, j)}
                  /\ (M.rollsig = q) = (\E h \in CommentsOn(i, j) : doc[h].roll)
                  /\ (M.csmsig = q) = (j # 2 /\ \E h \in CommentsOn(i, j) : doc[h].csm)
                  /\ (M.sigs[q].vals # <<>>) = (\E x \in lines("val") : x.j = j)
     /\ R.ver = (IF \E k \in Live(doc) : doc[k].k = "ver" THEN <<1, 2>> ELSE <<0, 0>>)
\* documents for the parser: the kind and the numbers of every line
Brief(x) == [k |-> x.k, i |-> IF x.k \in {"bo", "tx", "cyc", "cm", "val"} THEN x.i ELSE 0,
             j |-> IF x.k \in {"sg", "cm", "val"} THEN x.j ELSE 0,
             ok |-> IF x.k \in {"bo", "sg"} THEN x.ok ELSE TRUE,
             f |-> IF x.k = "cm" THEN (IF x.roll THEN 1 ELSE IF x.csm THEN 2 ELSE 0) ELSE 0,
             tgt |-> IF x.k = "cm" THEN x.tgt ELSE "",
             c |-> IF x.k = "cm" THEN x.closed ELSE IF x.k = "tl" THEN x.closes ELSE FALSE]
Emit == Complete /\ Len(doc) >= MinEmit => PrintT("@@" \o ToJson([i \in 1..Len(doc) |-> Brief(doc[i])]))
=============================================================================
