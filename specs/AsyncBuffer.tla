----------------------------- MODULE AsyncBuffer -----------------------------
(***************************************************************************)
(* A consumer asks a buffer for any number of elements; a background       *)
(* generator fills one chunk ahead.  Modelled at the steps of the code:    *)
(* take the finished chunk, start the next generation, copy what is there. *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Chunk,      \* size of a generated chunk
          MaxAsk,     \* largest request
          Asks        \* number of requests

VARIABLES gen,        \* "busy" or "done": the generation in progress
          next,       \* the next element the generator will produce
          ahead,      \* the chunk it has produced
          buf, idx,   \* the chunk being consumed, and how much of it is used
          want, out,  \* the request in progress, what has been copied for it
          given,      \* everything handed out so far
          asked, pc
vars == <<gen, next, ahead, buf, idx, want, out, given, asked, pc>>

Init == /\ gen = "busy" /\ next = 0 /\ ahead = << >> /\ buf = << >> /\ idx = Chunk
        /\ want = 0 /\ out = << >> /\ given = << >> /\ asked = 0 /\ pc = "idle"

Generate == /\ gen = "busy"
            /\ ahead' = [i \in 1..Chunk |-> next + i - 1]
            /\ next' = next + Chunk /\ gen' = "done"
            /\ UNCHANGED <<buf, idx, want, out, given, asked, pc>>
Ask(n) == /\ pc = "idle" /\ asked < Asks
          /\ want' = n /\ out' = << >> /\ asked' = asked + 1 /\ pc' = "loop"
          /\ UNCHANGED <<gen, next, ahead, buf, idx, given>>
\* waits for the generation in progress
Take == /\ pc = "loop" /\ Len(out) < want /\ idx >= Chunk /\ gen = "done"
        /\ buf' = ahead /\ idx' = 0 /\ ahead' = << >> /\ gen' = "busy"
        /\ UNCHANGED <<next, want, out, given, asked, pc>>
Min(a, b) == IF a < b THEN a ELSE b
Copy == /\ pc = "loop" /\ Len(out) < want /\ idx < Chunk
        /\ LET k == Min(want - Len(out), Chunk - idx)
           IN  out' = out \o SubSeq(buf, idx + 1, idx + k) /\ idx' = idx + k
        /\ UNCHANGED <<gen, next, ahead, buf, want, given, asked, pc>>
Give == /\ pc = "loop" /\ Len(out) = want
        /\ given' = given \o out /\ pc' = "idle"
        /\ UNCHANGED <<gen, next, ahead, buf, idx, want, out, asked>>
Destroy == /\ pc = "idle" /\ gen = "done" /\ pc' = "gone"
           /\ UNCHANGED <<gen, next, ahead, buf, idx, want, out, given, asked>>
Next == Generate \/ (\E n \in 0..MaxAsk : Ask(n)) \/ Take \/ Copy \/ Give \/ Destroy
Spec == Init /\ [][Next]_vars /\ WF_vars(Generate) /\ WF_vars(Take) /\ WF_vars(Copy) /\ WF_vars(Give)

InOrder == \A i \in 1..Len(given) : given[i] = i - 1
Exact == pc = "loop" => Len(out) <= want
OneAhead == next <= Len(given) + Len(out) + 2 * Chunk
Quiet == pc = "gone" => gen # "busy"
Served == pc = "loop" ~> pc = "idle"
=============================================================================
