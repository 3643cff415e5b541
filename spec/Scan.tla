-------------------------------- MODULE Scan --------------------------------
(* Reading a DBC document: a line machine that passes the document twice.  The first pass      *)
(* collects messages, signals, transmitters and the version, the second one attaches           *)
(* annotations.  Lines are records [k |-> kind, ...]:                                          *)
(*   ver  hi, lo                      bo   n, id (raw, two halves), dlc, ok, tx                *)
(*   sg   n, s, l, m, g, fac, off, recs, ok        (ok: the line is complete)                  *)
(*   tx   id, nodes                   cyc  id, v                                               *)
(*   cm   tgt ("bo", "sg", "other"), id, sig, toks, roll, csm, closed   - a comment opens      *)
(*   tl   toks, roll, csm, closes                                       - a line of text       *)
(*   val  id, sig, ents (<<value, name characters>>)                   junk                    *)
(* Any line may stand inside an open comment and is text there; q says that it has quotes.     *)
EXTENDS Dbc

CanId(raw) == <<raw[1] % 8192, raw[2]>>                 \* without the three topmost bits
IsExt(raw) == raw[1] >= 32768
Reserved(raw) == raw[1] >= 65536 \/ (raw[1] \div 8192) % 4 # 0      \* or more than 32 bits
Accept(b) == b.ok /\ ~Reserved(b.id) /\ b.dlc >= 1 /\ b.dlc <= 64

NewMsg(b) == [n |-> b.n, id |-> CanId(b.id), ext |-> IsExt(b.id), dlc |-> b.dlc, sigs |-> <<>>,
              tx |-> IF b.tx = "" THEN {} ELSE {b.tx}, cyc |-> 0, toks |-> {}, rollsig |-> 0, csmsig |-> 0]
NewSig(x) == [n |-> x.n, s |-> x.s, l |-> x.l, m |-> x.m, g |-> x.g, fac |-> x.fac, off |-> x.off,
              recs |-> {x.recs[i] : i \in 1..Len(x.recs)}, toks |-> {}, vals |-> <<>>]

Start == [ver |-> <<0, 0>>, msgs |-> <<>>, cur |-> <<>>, open |-> FALSE, cm |-> <<>>]
Opens(x)  == x.k = "cm" /\ ~x.closed
Closes(x) == x.k = "tl" /\ x.closes
Flush(s) == [s EXCEPT !.msgs = s.msgs \o s.cur, !.cur = <<>>]
Find(s, id) == LET c == {i \in 1..Len(s.msgs) : s.msgs[i].id = CanId(id) /\ s.msgs[i].ext = IsExt(id) /\ ~Reserved(id)} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
FindSig(M, n) == LET c == {i \in 1..Len(M.sigs) : M.sigs[i].n = n} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE

First(s, x) ==
  IF s.open THEN [s EXCEPT !.open = ~Closes(x)]
  ELSE IF Opens(x) THEN [s EXCEPT !.open = TRUE]
  ELSE IF x.k = "ver" THEN [s EXCEPT !.ver = <<x.hi, x.lo>>]
  ELSE IF x.k = "bo" THEN [Flush(s) EXCEPT !.cur = IF Accept(x) THEN <<NewMsg(x)>> ELSE <<>>]
  ELSE IF x.k = "sg" THEN (IF s.cur # <<>> /\ x.ok THEN [s EXCEPT !.cur[1].sigs = Append(@, NewSig(x))] ELSE s)
  ELSE IF x.k = "tx" THEN LET f == Flush(s)
                              i == Find(f, x.id)
                          IN IF i = 0 THEN f ELSE [f EXCEPT !.msgs[i].tx = @ \cup {x.nodes[j] : j \in 1..Len(x.nodes)}]
  ELSE s
Between(s) == [Flush(s) EXCEPT !.open = FALSE]

\* a complete comment takes effect; one with quotes inside is not understood
Comment(s, c) ==
  LET i == IF c.tgt = "other" \/ c.q THEN 0 ELSE Find(s, c.id) IN
  IF i = 0 THEN s
  ELSE IF c.tgt = "bo" THEN [s EXCEPT !.msgs[i].toks = c.toks]
  ELSE LET j == FindSig(s.msgs[i], c.sig) IN
       IF j = 0 THEN s
       ELSE LET S == s.msgs[i].sigs[j]
                oneByte == BitPos(S, 0) \div 8 = BitPos(S, S.l - 1) \div 8
            IN [s EXCEPT !.msgs[i].sigs[j].toks = c.toks,
                         !.msgs[i].rollsig = IF c.roll THEN j ELSE @,
                         !.msgs[i].csmsig = IF c.csm /\ Kind(S) = "plain" /\ ~S.g /\ oneByte THEN j ELSE @]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Text(c, x) == IF x.k = "tl" THEN [c EXCEPT !.toks = @ \cup SetOf(x.toks), !.roll = @ \/ x.roll, !.csm = @ \/ x.csm]
              ELSE [c EXCEPT !.q = @ \/ x.q]

Second(s, x) ==
  IF s.open
  THEN LET c == Text(s.cm[1], x) IN
       IF Closes(x) THEN [Comment(s, c) EXCEPT !.open = FALSE, !.cm = <<>>] ELSE [s EXCEPT !.cm = <<c>>]
  ELSE IF x.k = "cm"
  THEN LET c == [tgt |-> x.tgt, id |-> x.id, sig |-> x.sig, toks |-> SetOf(x.toks), roll |-> x.roll, csm |-> x.csm, q |-> FALSE]
       IN IF x.closed THEN Comment(s, c) ELSE [s EXCEPT !.open = TRUE, !.cm = <<c>>]
  ELSE IF x.k = "cyc" THEN LET i == Find(s, x.id) IN IF i = 0 THEN s ELSE [s EXCEPT !.msgs[i].cyc = x.v]
  ELSE IF x.k = "val" THEN LET i == Find(s, x.id)
                               j == IF i = 0 THEN 0 ELSE FindSig(s.msgs[i], x.sig)
                           IN IF j = 0 THEN s ELSE [s EXCEPT !.msgs[i].sigs[j].vals = x.ents]
  ELSE s

Fold(Op(_, _), s0, doc) == LET f[i \in 0..Len(doc)] == IF i = 0 THEN s0 ELSE Op(f[i - 1], doc[i]) IN f[Len(doc)]
Read(doc) == Fold(Second, Between(Fold(First, Start, doc)), doc)

\* the constant name of a description: characters of C identifiers, blanks as underscores
IsLetter(ch) == (ch >= 65 /\ ch <= 90) \/ (ch >= 97 /\ ch <= 122) \/ ch = 95
IsDigit(ch) == ch >= 48 /\ ch <= 57
CName(chars) ==
  LET Step(acc, ch) == IF IsLetter(ch) \/ (IsDigit(ch) /\ acc # <<>>) THEN Append(acc, ch) ELSE IF ch = 32 THEN Append(acc, 95) ELSE acc
  IN Fold(Step, <<>>, chars)

\* nodes and the share of each
Recs(M) == UNION {M.sigs[i].recs : i \in 1..Len(M.sigs)}
Nodes(msgs) == UNION {msgs[i].tx \cup Recs(msgs[i]) : i \in 1..Len(msgs)}
RxOf(msgs, n) == {msgs[i].n : i \in {i \in 1..Len(msgs) : n \in Recs(msgs[i])}}
TxOf(msgs, n) == {msgs[i].n : i \in {i \in 1..Len(msgs) : n \in msgs[i].tx /\ msgs[i].sigs # <<>>}}
=============================================================================
