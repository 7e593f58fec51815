----------------------------- MODULE MCKeyFlow -----------------------------
(***************************************************************************)
(* The code's scheme: the last Base keys of every extension are kept back  *)
(* to start the next one, the others are delivered from the front; a       *)
(* request may cross any number of extensions.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Base, Ext,        \* keys used by and made by an extension
          MaxReq, Lots      \* longest request, number of extensions looked at
ASSUME Ext > Base /\ Base > 0

VARIABLES made, given, burnt, last,     \* the abstract state
          want, queue, kept, lots       \* the code's
vars == <<made, given, burnt, last, want, queue, kept, lots>>
K == INSTANCE KeyFlow

Lot(i) == [j \in 1..Ext |-> Base + (i - 1) * Ext + j]
Init == K!KInit /\ want = 0 /\ queue = << >> /\ kept = << >> /\ lots = 0
Start == /\ made = {}
         /\ K!Boot([j \in 1..Base |-> j])
         /\ kept' = [j \in 1..Base |-> j]
         /\ UNCHANGED <<want, queue, lots>>
Refill == /\ kept # << >> /\ lots < Lots
          /\ queue = << >> /\ (lots = 0 \/ want > 0)
          /\ LET out == Lot(lots + 1)
             IN  /\ K!Extend(kept, out)
                 /\ kept' = SubSeq(out, Ext - Base + 1, Ext)
                 /\ queue' = SubSeq(out, 1, Ext - Base)
          /\ lots' = lots + 1 /\ UNCHANGED want
Request == /\ lots > 0 /\ want = 0
           /\ want' \in 1..MaxReq
           /\ UNCHANGED <<made, given, burnt, last, queue, kept, lots>>
Serve == /\ want > 0 /\ queue # << >>
         /\ LET n == IF want < Len(queue) THEN want ELSE Len(queue)
            IN  /\ K!Deliver(SubSeq(queue, 1, n))
                /\ queue' = SubSeq(queue, n + 1, Len(queue))
                /\ want' = want - n
         /\ UNCHANGED <<kept, lots>>
Next == Start \/ Refill \/ Request \/ Serve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

UsedOnce == K!UsedOnce
\* the reserve is never on offer, and nothing is lost
Reserve == K!Range(queue) \cap K!Range(kept) = {}
Complete == lots > 0 => made = given \cup burnt \cup K!Range(queue) \cup K!Range(kept)
\* a request is served unless the bound on extensions stops it
Served == [](want > 0 => <>(want = 0 \/ lots = Lots))
\* no step is refused by the abstract rules
Free == (made # {} /\ queue = << >> /\ want > 0 /\ lots < Lots) => ENABLED Refill
Free2 == (want > 0 /\ queue # << >>) => ENABLED Serve
=============================================================================
