----------------------------- MODULE ScanTrace -----------------------------
(* What the generated driver contains, compared with what the line machine reads.              *)
(* A trace: lines (the document), obs (what was observed of the generated package).            *)
EXTENDS Scan, Json, TLC
CONSTANT Aspects
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>
T == Traces[tr]
N == Len(T.lines)
A(x) == x \in Aspects
Init == tr \in 1..Len(Traces) /\ l = 1 /\ st = Start /\ bad = ""

Names(q) == {q[i].n : i \in 1..Len(q)}
Obs(n) == LET c == {i \in 1..Len(T.obs.msgs) : T.obs.msgs[i].n = n} IN T.obs.msgs[CHOOSE i \in c : TRUE]
Fields(M) == {FieldName(M.sigs[i]) : i \in 1..Len(M.sigs)}
ObsFields(o) == {o.fields[i].f : i \in 1..Len(o.fields)}
FieldOf(o, f) == o.fields[CHOOSE i \in 1..Len(o.fields) : o.fields[i].f = f]
Filled == {i \in 1..Len(st.msgs) : st.msgs[i].sigs # <<>>}

\* zero content, counters on, a hash of all ones
Payload(M) ==
  LET raw == [i \in 1..Len(M.sigs) |-> IF i = M.csmsig THEN <<255, 0, 0, 0, 0, 0, 0, 0>> ELSE IF i = M.rollsig THEN One8 ELSE Zero8]
  IN Encode(OwnerMap(M.sigs, M.dlc), M.dlc, raw, 0)
NameOf(cn) == CName(cn)
\* constants of one signal: each identifier-like entry is there with one of its values, and nothing else
ValsOk(f, m, ents, consts) ==
  LET own  == {consts[i] : i \in {i \in 1..Len(consts) : consts[i].f = f /\ consts[i].m = m /\ consts[i].c # <<>>}}
      want == {<<CName(ents[i][2]), ents[i][1]>> : i \in {i \in 1..Len(ents) : CName(ents[i][2]) # <<>>}}
  IN /\ \A w \in want : \E o \in own : o.c = w[1]
     /\ \A o \in own : <<o.c, o.v>> \in want

Verdict ==
  LET R == st IN
  IF T.obs.failed # "" THEN T.obs.failed
  ELSE IF A("ver") /\ T.obs.ver # R.ver THEN "ver: wrong version"
  ELSE IF A("msgs") /\ (Names(T.obs.msgs) # Names(R.msgs) \/ Len(T.obs.msgs) # Len(R.msgs)) THEN "msgs: not exactly the well-formed messages"
  ELSE IF A("msgs") /\ \E i \in 1..Len(R.msgs) :
            LET o == Obs(R.msgs[i].n) IN ObsFields(o) # Fields(R.msgs[i]) \/ Len(o.fields) # Len(R.msgs[i].sigs)
       THEN "msgs: a message does not have exactly its signals"
  ELSE IF A("msgs") /\ SetOf(T.obs.fns) # {R.msgs[i].n : i \in Filled} THEN "msgs: functions for other messages than the filled ones"
  ELSE IF A("ann") /\ Names(T.obs.msgs) # Names(R.msgs) THEN "ann: messages are missing"
  ELSE IF A("ann") /\ \E i \in 1..Len(R.msgs) : Obs(R.msgs[i].n).cyc # R.msgs[i].cyc THEN "ann: wrong cycle time"
  ELSE IF A("ann") /\ \E i \in 1..Len(R.msgs) : SetOf(Obs(R.msgs[i].n).toks) # R.msgs[i].toks THEN "ann: wrong comment on a message"
  ELSE IF A("ann") /\ \E i \in Filled : ObsFields(Obs(R.msgs[i].n)) # Fields(R.msgs[i]) THEN "ann: signals are missing"
  ELSE IF A("ann") /\ \E i \in Filled : \E j \in 1..Len(R.msgs[i].sigs) :
            SetOf(FieldOf(Obs(R.msgs[i].n), FieldName(R.msgs[i].sigs[j])).toks) # R.msgs[i].sigs[j].toks THEN "ann: wrong comment on a signal"
  ELSE IF A("ann") /\ T.obs.stray # <<>> THEN "ann: a comment where none belongs"
  ELSE IF A("ann") /\ \E i \in Filled : Obs(R.msgs[i].n).pay # Payload(R.msgs[i]) THEN "ann: counter or checksum not on the marked signal"
  ELSE IF A("nodes") /\ T.obs.nu /\ {<<o.node, SetOf(o.rx), SetOf(o.tx)>> : o \in SetOf(T.obs.utils)}
                      # {<<n, RxOf(R.msgs, n), TxOf(R.msgs, n)>> : n \in Nodes(R.msgs)} THEN "nodes: wrong utility drivers"
  ELSE IF A("nodes") /\ ~T.obs.nu /\ {<<o.node, SetOf(o.rx), SetOf(o.tx)>> : o \in SetOf(T.obs.utils)}
                      # {<<"", {R.msgs[i].n : i \in Filled}, {}>>} THEN "nodes: wrong single utility driver"
  ELSE IF A("vals") /\ \E i \in Filled : \E j \in 1..Len(R.msgs[i].sigs) :
            ~ValsOk(FieldName(R.msgs[i].sigs[j]), R.msgs[i].n, R.msgs[i].sigs[j].vals, T.obs.consts) THEN "vals: wrong constants"
  ELSE IF A("vals") /\ \E c \in SetOf(T.obs.consts) : ~\E i \in Filled : R.msgs[i].n = c.m /\ c.f \in Fields(R.msgs[i])
       THEN "vals: a constant that belongs to no signal"
  ELSE ""
Next == /\ bad = "" /\ l <= 2 * N + 2
        /\ l' = l + 1 /\ tr' = tr
        /\ st' = IF l <= N THEN First(st, T.lines[l])
                 ELSE IF l = N + 1 THEN Between(st)
                 ELSE IF l <= 2 * N + 1 THEN Second(st, T.lines[l - N - 1])
                 ELSE st
        /\ bad' = IF l = 2 * N + 2 THEN Verdict ELSE ""
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
