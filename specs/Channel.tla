------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* One direction of a channel, as the agents implement it: the sender      *)
(* queues messages of any size (also empty ones); a receive of k bytes     *)
(* takes whole messages from the head of the queue while they fit and the  *)
(* front part of the next one; the sender may end the connection at any    *)
(* point.  The bytes are numbered 1..Total, so "exactly what was sent, in  *)
(* order" means the delivered bytes are 1, 2, 3, ...                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Total, MaxChunk
VARIABLES queue, sent, want, part, delivered, closed, failed
vars == <<queue, sent, want, part, delivered, closed, failed>>
Init == queue = << >> /\ sent = 0 /\ want = 0 /\ part = << >> /\ delivered = << >> /\ closed = FALSE /\ failed = FALSE

Send(k) == /\ ~closed /\ sent + k <= Total /\ Len(queue) < 3
           /\ queue' = Append(queue, [i \in 1..k |-> sent + i]) /\ sent' = sent + k
           /\ UNCHANGED <<want, part, delivered, closed, failed>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<queue, sent, want, part, delivered, failed>>

Ask(k) == /\ want = 0 /\ ~failed /\ Len(delivered) + k <= Total
          /\ want' = k /\ part' = << >> /\ UNCHANGED <<queue, sent, delivered, closed, failed>>
Take == /\ want > 0 /\ Len(part) < want /\ queue # << >>
        /\ LET room == want - Len(part)
               buf == Head(queue)
           IN IF room >= Len(buf)
              THEN part' = part \o buf /\ queue' = Tail(queue)
              ELSE part' = part \o SubSeq(buf, 1, room) /\ queue' = <<SubSeq(buf, room + 1, Len(buf))>> \o Tail(queue)
        /\ UNCHANGED <<sent, want, delivered, closed, failed>>
Return == /\ want > 0 /\ Len(part) = want
          /\ delivered' = delivered \o part /\ want' = 0 /\ part' = << >>
          /\ UNCHANGED <<queue, sent, closed, failed>>
Fail == /\ want > 0 /\ Len(part) < want /\ queue = << >> /\ closed
        /\ failed' = TRUE /\ want' = 0 /\ part' = << >> /\ UNCHANGED <<queue, sent, delivered, closed>>
Done == (failed \/ Len(delivered) = Total \/ (closed /\ want = 0)) /\ UNCHANGED vars

Next == (\E k \in 0..MaxChunk : Send(k)) \/ Close \/ (\E k \in 1..MaxChunk : Ask(k)) \/ Take \/ Return \/ Fail \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Return) /\ WF_vars(Fail)

InOrder == \A i \in 1..Len(delivered) : delivered[i] = i
Whole == Len(delivered) + Len(part) <= sent
\* an error only when what arrived does not suffice
Reason == failed => closed
\* a receive that has enough bytes coming ends with data, one that cannot be served ends with an error
Served == want > 0 /\ closed ~> want = 0
=============================================================================
