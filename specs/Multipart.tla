------------------------------- MODULE Multipart ------------------------------
(***************************************************************************)
(* The multipart uploader against a storage service where any request may  *)
(* fail, with or without taking effect.  The caller writes parts, may      *)
(* carry on after a failing write, and closes.  What the service shows     *)
(* under the name is the old object or everything written; a success is    *)
(* reported only for the latter; only a failing abort leaves the upload    *)
(* behind.  Guard = FALSE is the uploader which forgets that it aborted.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Parts, Retries, Guard

VARIABLES pc, given, listed, next, tries, aborted, stored, pending, shown, lostAbort, reported
\* given: parts the caller wrote; listed: parts the uploader believes uploaded; stored: number -> part at the service
vars == <<pc, given, listed, next, tries, aborted, stored, pending, shown, lostAbort, reported>>

Init == /\ pc = "idle" /\ given = << >> /\ listed = << >> /\ next = 1 /\ tries = 0 /\ aborted = FALSE
        /\ stored = << >> /\ pending = TRUE /\ shown = <<0>> /\ lostAbort = FALSE /\ reported = {}

Write == /\ pc = "idle" /\ Len(given) < Parts
         /\ given' = Append(given, Len(given) + 1)
         /\ IF Guard /\ aborted THEN pc' = "idle" /\ reported' = reported \cup {"write"} ELSE pc' = "part" /\ UNCHANGED reported
         /\ tries' = 0 /\ UNCHANGED <<listed, next, aborted, stored, pending, shown, lostAbort>>
Effect == pending  \* the service knows the upload
\* one attempt at the part: lost, effective but unanswered, or done
PartFails == /\ pc = "part"
             /\ \/ stored' = stored
                \/ Effect /\ stored' = [n \in DOMAIN stored \cup {next} |-> IF n = next THEN given[Len(given)] ELSE stored[n]]
             /\ IF tries < Retries THEN tries' = tries + 1 /\ pc' = "part" ELSE UNCHANGED tries /\ pc' = "abortPart"
             /\ UNCHANGED <<given, listed, next, aborted, pending, shown, lostAbort, reported>>
PartWorks == /\ pc = "part" /\ Effect
             /\ stored' = [n \in DOMAIN stored \cup {next} |-> IF n = next THEN given[Len(given)] ELSE stored[n]]
             /\ listed' = Append(listed, next) /\ next' = next + 1 /\ pc' = "idle"
             /\ UNCHANGED <<given, tries, aborted, pending, shown, lostAbort, reported>>
Abort(from, to, what) ==
  /\ pc = from /\ pc' = to /\ aborted' = TRUE /\ reported' = reported \cup {what}
  /\ \/ pending' = FALSE /\ UNCHANGED lostAbort
     \/ lostAbort' = TRUE /\ pending' \in {pending, FALSE}
  /\ UNCHANGED <<given, listed, next, tries, stored, shown>>
AbortPart == Abort("abortPart", "idle", "write")
Close == /\ pc = "idle"
         /\ IF Guard /\ aborted THEN pc' = "closed" /\ reported' = reported \cup {"close"} ELSE pc' = "complete" /\ UNCHANGED reported
         /\ UNCHANGED <<given, listed, next, tries, aborted, stored, pending, shown, lostAbort>>
Show == /\ Effect /\ listed # << >>
        /\ shown' = [i \in 1..Len(listed) |-> stored[listed[i]]] /\ pending' = FALSE
CompleteWorks == /\ pc = "complete" /\ Show /\ pc' = "closed"
                 /\ UNCHANGED <<given, listed, next, tries, aborted, stored, lostAbort, reported>>
CompleteFails == /\ pc = "complete" /\ pc' = "abortClose"
                 /\ Show \/ UNCHANGED <<shown, pending>>
                 /\ UNCHANGED <<given, listed, next, tries, aborted, stored, lostAbort, reported>>
AbortClose == Abort("abortClose", "closed", "close")

Next == Write \/ PartFails \/ PartWorks \/ AbortPart \/ Close \/ CompleteWorks \/ CompleteFails \/ AbortClose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoTruncation == shown = <<0>> \/ shown = given
SuccessMeansThere == pc = "closed" /\ reported = {} => shown = given /\ ~pending
NothingLeft == pc = "closed" /\ pending => lostAbort
AllTaken == (pc = "closed" /\ shown # given) => reported # {}
Ends == <>(pc = "closed")
===============================================================================
