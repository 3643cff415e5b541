---------------------------- MODULE RobustTrace ----------------------------
(* Runs of the generator (built with memory checking) on arbitrary bytes and on damaged        *)
(* documents.  A trace: rc, fault, files; for damaged documents also lines, hit, obs, and the  *)
(* numbers that the damaged line has (names).                                                  *)
EXTENDS Robust, Json, TLC, FiniteSets
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, l, st, bad
vars == <<tr, l, st, bad>>
T == Traces[tr]
N == Len(T.lines)
Line(i) == IF i = T.hit THEN Lost(T.lines[i]) ELSE T.lines[i]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ st = Start /\ bad = ""

\* the files every package has, and the places where others may be (utilities of nodes)
Core == {"lib/tdrv.h", "lib/tdrv.c", "lib/tdrv-fmon.h", "usr/tdrv-fmon.c", "conf/tdrv-config.h", "conf/dbccodeconf.h", "inc/canmonitorutil.h"}
RunVerdict ==
  IF T.rc # "0" THEN "the run does not end normally"
  ELSE IF T.fault THEN "the run touches memory it must not touch"
  ELSE IF \E f \in Core : f \notin SetOf(T.files) THEN "the package is not complete"
  ELSE IF T.outside # <<>> THEN "files outside the package"
  ELSE ""

ObsOf(n) == {i \in 1..Len(T.obs.msgs) : T.obs.msgs[i].n = n}
Payload(M) ==
  LET raw == [i \in 1..Len(M.sigs) |-> IF i = M.csmsig THEN <<255, 0, 0, 0, 0, 0, 0, 0>> ELSE IF i = M.rollsig THEN One8 ELSE Zero8]
  IN Encode(OwnerMap(M.sigs, M.dlc), M.dlc, raw, 0)
\* constants of one signal: each identifier-like entry is there with one of its values, and nothing else
ValsOk(f, m, ents) ==
  LET own  == {T.obs.consts[i] : i \in {i \in 1..Len(T.obs.consts) : T.obs.consts[i].f = f /\ T.obs.consts[i].m = m /\ T.obs.consts[i].c # <<>>}}
      want == {<<CName(ents[i][2]), ents[i][1]>> : i \in {i \in 1..Len(ents) : CName(ents[i][2]) # <<>>}}
  IN /\ \A w \in want : \E o \in own : o.c = w[1]
     /\ \A o \in own : <<o.c, o.v>> \in want
\* message M of the document is in the package, as it is in the intact document
SameMsg(M) ==
  /\ \E i \in ObsOf(M.n) :
       /\ \A j \in ObsOf(M.n) : j = i
       /\ LET o == T.obs.msgs[i] IN
          /\ o.id = M.id /\ o.dlc = M.dlc /\ o.ide = (IF M.ext THEN 1 ELSE 0)
          /\ o.cyc = M.cyc
          /\ SetOf(o.toks) = M.toks
          /\ {o.fields[j].f : j \in 1..Len(o.fields)} = {FieldName(M.sigs[j]) : j \in 1..Len(M.sigs)}
          /\ Len(o.fields) = Len(M.sigs)
          /\ \A j \in 1..Len(M.sigs) : \A k \in 1..Len(o.fields) :
                o.fields[k].f = FieldName(M.sigs[j]) => SetOf(o.fields[k].toks) = M.sigs[j].toks
          /\ T.obs.hasconsts => \A j \in 1..Len(M.sigs) : ValsOk(FieldName(M.sigs[j]), M.n, M.sigs[j].vals)
          /\ o.pay # <<>> => o.pay = Payload(M)
  /\ T.obs.nodes => \A u \in SetOf(T.obs.utils) : (u.node \in SetOf(T.obs.known) /\ (T.obs.nu => u.node # "")) =>
        /\ (M.n \in SetOf(u.rx)) <=> ((u.node = "" /\ M.sigs # <<>>) \/ u.node \in Recs(M))
        /\ (M.n \in SetOf(u.tx)) <=> (M.sigs # <<>> /\ u.node \in M.tx)
  /\ T.obs.nodes /\ T.obs.nu => \A n \in Recs(M) \cup M.tx : \E u \in SetOf(T.obs.utils) : u.node = n

DmgVerdict ==
  LET sc  == IF T.hit = 0 THEN {} ELSE Scope(T.lines, T.hit, st.msgs)
      out == {i \in 1..Len(st.msgs) : st.msgs[i].n \notin sc /\ ~SameMsg(st.msgs[i])}
  IN IF T.obs.failed # "" THEN T.obs.failed
     ELSE IF T.hit # 0 /\ T.obs.ver # st.ver /\ T.lines[T.hit].k # "ver" THEN "the version changed"
     ELSE IF out # {} /\ (T.hit = 0 \/ ~Annotation(T.lines[T.hit]) \/ Cardinality(out) > 1 \/ \E i \in out : RawId(st.msgs[i]) \notin SetOf(T.names))
          THEN "a message the damage does not concern has changed"
     ELSE ""
Next == /\ bad = "" /\ l <= 2 * N + 2
        /\ l' = l + 1 /\ tr' = tr
        /\ st' = IF l <= N THEN First(st, Line(l))
                 ELSE IF l = N + 1 THEN Between(st)
                 ELSE IF l <= 2 * N + 1 THEN Second(st, Line(l - N - 1))
                 ELSE st
        /\ bad' = IF l = 2 * N + 2 THEN (IF RunVerdict # "" THEN RunVerdict ELSE IF T.dmg THEN DmgVerdict ELSE "") ELSE ""
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
