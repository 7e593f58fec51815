------------------------------ MODULE CloudTrace ------------------------------
(***************************************************************************)
(* Decides recorded uses of the cloud writers and readers against a        *)
(* storage service whose requests fail as scripted.  The state is what the *)
(* service shows under each name, the bytes given to the open writer and   *)
(* what happened to its requests, and the reader's place.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Retries == 3  \* failures in a row of one part request which must not matter

VARIABLES l, store, w, rd, last
vars == <<l, store, w, rd, last>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
At(o) == IF o \in DOMAIN store THEN store[o] ELSE << >>   \* << >> or << the bytes >>
None == [open |-> 0]

Init == l = 1 /\ store = << >> /\ w = None /\ rd = None /\ last = TRUE
Begin == Is("begin") /\ store' = << >> /\ w' = None /\ rd' = None /\ last' = TRUE
Object == Is("object") /\ store' = (E.o :> <<E.c>>) @@ store /\ UNCHANGED <<w, rd, last>>

\* a request of the open writer or reader: how often in a row the same part failed, and what else failed
Req == /\ Is("req") /\ UNCHANGED <<store, rd>> /\ last' = (E.ok = 1)
       /\ w' = IF w.open = 0 THEN w
               ELSE IF E.op = "part"
               THEN [w EXCEPT !.run = IF E.ok = 1 THEN 0 ELSE @ + 1, !.worst = IF E.ok = 0 /\ w.run + 1 > @ THEN w.run + 1 ELSE @]
               ELSE IF E.ok = 1 THEN w
               ELSE [w EXCEPT !.failed = @ \cup {E.op}]

WOpen == /\ Is("wopen") /\ UNCHANGED <<store, rd, last>>
         /\ w' = [open |-> 1, o |-> E.o, s3 |-> E.s3, given |-> << >>, bad |-> FALSE, done |-> FALSE, ok |-> FALSE,
                  run |-> 0, worst |-> 0, failed |-> {}]
\* a writer is refused only if the service refused to start the upload
WRefused == Is("wrefused") /\ w.failed \cap {"create"} # {} /\ w' = [w EXCEPT !.bad = TRUE, !.done = TRUE] /\ UNCHANGED <<store, rd, last>>
\* what the service did is bearable: every part got through within the retries and nothing else failed
Bearable == w.worst <= Retries /\ w.failed = {} /\ (w.s3 = 0 \/ w.given # << >>)
Write == /\ Is("write") /\ w' = [w EXCEPT !.given = @ \o E.c, !.bad = @ \/ E.ok = 0] /\ UNCHANGED <<store, rd, last>>
         /\ E.ok = 0 => w.bad \/ w.worst > Retries \/ w.failed # {}
WClose == /\ Is("wclose") /\ w' = [w EXCEPT !.done = TRUE, !.ok = (E.ok = 1)] /\ UNCHANGED <<store, rd, last>>
          /\ Bearable => E.ok = 1 /\ ~w.bad
\* a writer that is thrown away unclosed after a failed write
WDrop == Is("wdrop") /\ w.bad /\ w' = [w EXCEPT !.done = TRUE] /\ UNCHANGED <<store, rd, last>>
\* what is there afterwards: all of it on success; otherwise nothing new, unless only the reply to the completion was lost
World == /\ Is("world") /\ w.open = 1 /\ w.done
         /\ LET all == <<w.given>>
            IN  /\ (w.ok /\ ~w.bad) => E.c = all
                /\ E.c \in {At(w.o), all}
                /\ (E.c = all /\ E.c # At(w.o)) => ~w.bad
                /\ E.pending = 0 \/ ("abort" \in w.failed /\ ~(w.ok /\ ~w.bad))
         /\ store' = (w.o :> E.c) @@ store /\ w' = None /\ UNCHANGED <<rd, last>>

NL == 10
Text == At(rd.o)[1]
Rest == Len(Text) - rd.pos
Least(a, b) == IF a < b THEN a ELSE b
Find(s, i) == LET hit == {j \in i..Len(s) : s[j] = NL}
              IN  IF hit = {} THEN Len(s) + 1 ELSE CHOOSE j \in hit : \A k \in hit : j <= k
Step(n) == rd' = [rd EXCEPT !.pos = @ + n] /\ UNCHANGED <<store, w, last>>
ROpen == Is("ropen") /\ rd' = [open |-> 1, o |-> E.o, lim |-> E.lim, pos |-> 0] /\ UNCHANGED <<store, w, last>>
RRefused == Is("rrefused") /\ (~last \/ At(rd.o) = << >>) /\ UNCHANGED <<store, w, rd, last>>
\* a storage service may return less than asked for, but something
Piece == /\ Is("piece") /\ Rest > 0 /\ Len(E.out) > 0
         /\ IF rd.lim = 0 THEN Len(E.out) = Least(E.n, Rest) ELSE Len(E.out) <= E.n
         /\ E.out = SubSeq(Text, rd.pos + 1, rd.pos + Len(E.out))
         /\ Step(Len(E.out))
Read == Is("read") /\ Rest > 0 /\ E.out = SubSeq(Text, rd.pos + 1, rd.pos + Least(E.n, Rest)) /\ Step(Len(E.out))
Line == /\ Is("line") /\ Rest > 0
        /\ LET j == Find(Text, rd.pos + 1)
           IN  E.out = SubSeq(Text, rd.pos + 1, j - 1) /\ Step(Least(j, Len(Text)) - rd.pos)
End == Is("end") /\ At(rd.o) # << >> /\ Rest = 0 /\ UNCHANGED <<store, w, rd, last>>
Eof == Is("eof") /\ At(rd.o) # << >> /\ E.out = (IF Rest = 0 THEN 1 ELSE 0) /\ UNCHANGED <<store, w, rd, last>>
\* a failing request is passed on as an error and moves nothing
Error == Is("error") /\ ~last /\ UNCHANGED <<store, w, rd, last>>
RClose == Is("rclose") /\ E.rc = 0 /\ rd' = None /\ UNCHANGED <<store, w, last>>

Big == Is("big") /\ E.prefix = E.n /\ E.pending = 0 /\ UNCHANGED <<store, w, rd, last>>
Incomplete == Is("incomplete") /\ E.ok = 0 /\ E.objects = 0 /\ E.pending = 0 /\ UNCHANGED <<store, w, rd, last>>

\* a read far beyond 32 bits delivers the same bytes as one at the front
Far == /\ Is("far") /\ E.ok = 1 /\ E.len = Len(E.c) /\ E.out = SubSeq(E.c, E.from + 1, Least(E.from + E.n, Len(E.c)))
       /\ UNCHANGED <<store, w, rd, last>>
\* the first bytes of an object longer than 32 bits count
Ahead == Is("ahead") /\ E.zeros = 1 /\ (\A k \in 1..Len(E.eof) : E.eof[k] = 0) /\ UNCHANGED <<store, w, rd, last>>

Next == \/ Begin \/ Object \/ Req \/ WOpen \/ WRefused \/ Write \/ WClose \/ WDrop \/ World
        \/ ROpen \/ RRefused \/ Piece \/ Read \/ Line \/ End \/ Eof \/ Error \/ RClose \/ Big \/ Far \/ Ahead \/ Incomplete
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
