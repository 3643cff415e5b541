------------------------------- MODULE Link -------------------------------
(* A sender and a receiver of one message with a rolling counter and a checksum, connected by  *)
(* a channel that loses, duplicates, reorders and corrupts frames.  The counter and checksum   *)
(* rules are those of Runtime; here they are explored exhaustively for small widths against    *)
(* the promise stated in terms of the (unbounded) send order.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W,        \* counter width
          MaxSend,  \* number of frames sent
          Slots,    \* capacity of the channel
          Faults    \* subset of {"lose", "dup", "reorder", "corrupt", "reset"}
Mod == 2 ^ W
Sum(c) == (c * 5 + 3) % 16                    \* a hash of the payload (the counter is the payload)

VARIABLES cnt,      \* sender's counter field
          sent,     \* frames sent so far (ghost)
          chan,     \* frames in flight: [n: position in the send order, c: counter, k: checksum]
          expt,     \* receiver's expected counter, -1 before the first frame
          roll, csm,\* flags of the frame received last
          last, prev,\* ghosts: send position of the last and the previous received frame (-1: none, -2: damaged)
          intact    \* ghost: last received frame was not corrupted
vars == <<cnt, sent, chan, expt, roll, csm, last, prev, intact>>

Init == /\ cnt \in 0..(Mod - 1) /\ sent = 0 /\ chan = <<>> /\ expt = -1
        /\ roll = 0 /\ csm = 0 /\ last = -1 /\ prev = -1 /\ intact = TRUE

Send == /\ sent < MaxSend /\ Len(chan) < Slots
        /\ cnt' = (cnt + 1) % Mod
        /\ sent' = sent + 1
        /\ chan' = Append(chan, [n |-> sent, c |-> cnt', k |-> Sum(cnt'), ok |-> TRUE])
        /\ UNCHANGED <<expt, roll, csm, last, prev, intact>>
Without(i) == SubSeq(chan, 1, i - 1) \o SubSeq(chan, i + 1, Len(chan))
Lose == /\ "lose" \in Faults
        /\ \E i \in 1..Len(chan) : chan' = Without(i)
        /\ UNCHANGED <<cnt, sent, expt, roll, csm, last, prev, intact>>
Dup == /\ "dup" \in Faults /\ Len(chan) < Slots
       /\ \E i \in 1..Len(chan) : chan' = SubSeq(chan, 1, i) \o <<chan[i]>> \o SubSeq(chan, i + 1, Len(chan))
       /\ UNCHANGED <<cnt, sent, expt, roll, csm, last, prev, intact>>
Corrupt == /\ "corrupt" \in Faults
           /\ \E i \in 1..Len(chan) : \E c \in 0..(Mod - 1) : \E k \in {chan[i].k, (chan[i].k + 1) % 16} :
                 /\ <<c, k>> # <<chan[i].c, chan[i].k>>
                 /\ chan' = [chan EXCEPT ![i] = [n |-> -2, c |-> c, k |-> k, ok |-> FALSE]]
           /\ UNCHANGED <<cnt, sent, expt, roll, csm, last, prev, intact>>
Receive == /\ \E i \in 1..Len(chan) :
                /\ i = 1 \/ "reorder" \in Faults
                /\ LET f == chan[i] IN
                   /\ roll' = IF expt = -1 THEN roll ELSE IF f.c # expt THEN 1 ELSE 0
                   /\ expt' = (f.c + 1) % Mod
                   /\ csm' = IF Sum(f.c) # f.k THEN 1 ELSE 0
                   /\ prev' = last /\ last' = f.n /\ intact' = f.ok
                /\ chan' = Without(i)
           /\ UNCHANGED <<cnt, sent>>
Next == Send \/ Lose \/ Dup \/ Corrupt \/ Receive
Spec == Init /\ [][Next]_vars

Judged == last >= 0 /\ prev >= 0
NoFalseAlarm == Judged /\ last = prev + 1 => roll = 0
GapFlagged   == Judged /\ (last - prev - 1) % Mod # 0 => roll = 1
Unflagged    == Judged /\ roll = 0 => (last - prev - 1) % Mod = 0
\* the error of a gap does not spill over to the next in-order frame: roll is a function of (prev, last)
ChecksumOk   == intact => csm = 0
Damaged      == ~intact /\ csm = 0 => TRUE
TypeOK == cnt \in 0..(Mod - 1) /\ expt \in -1..(Mod - 1) /\ Len(chan) <= Slots
=============================================================================
