------------------------------- MODULE Robust -------------------------------
(* Damaged documents.  Whatever one line has become (a line may turn into any text without a   *)
(* line end), and wherever a document breaks off, only the messages that line speaks about may *)
(* change; a damaged reference may in addition hit one other message.                          *)
EXTENDS Scan

\* the message whose block is open / was open before line h
RECURSIVE CurOf(_, _)
CurOf(s, doc) == IF doc = <<>> THEN s ELSE CurOf(First(s, Head(doc)), Tail(doc))
NamesOf(q) == {q[i].n : i \in 1..Len(q)}
Before(doc, h) == CurOf(Start, SubSeq(doc, 1, h - 1))
\* messages line h speaks about: its own one, the one whose block is open
OpenMsg(doc, h) == NamesOf(Before(doc, h).cur)
ById(msgs, id) == LET i == Find([msgs |-> msgs], id) IN IF i = 0 THEN {} ELSE {msgs[i].n}
Scope(doc, h, msgs) ==
  LET x == doc[h] IN
  CASE x.k = "bo" -> {x.n} \cup OpenMsg(doc, h)
    [] x.k = "sg" -> OpenMsg(doc, h)
    [] x.k \in {"tx", "cyc", "val"} -> ById(msgs, x.id)
    [] x.k = "cm" -> IF x.tgt = "other" THEN {} ELSE ById(msgs, x.id)
    [] OTHER -> {}
\* an annotation may also reach the one message that its (damaged) identifier now names
Annotation(x) == x.k \in {"tx", "cyc", "val", "cm"}
RawId(M) == <<M.id[1] + (IF M.ext THEN 32768 ELSE 0), M.id[2]>>
\* a line that was lost; a comment still opens with its quote
Lost(x) == IF x.k = "cm" THEN [x EXCEPT !.tgt = "other"] ELSE [k |-> "junk", q |-> FALSE]
=============================================================================
