----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Decides recorded uses of the asynchronous buffer: what it hands out is  *)
(* the generated stream, in order, each element once; one generation at a  *)
(* time; nothing is running any more when the buffer is gone.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, stream, started, running, want, alive
vars == <<l, stream, started, running, want, alive>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ stream = << >> /\ started = 0 /\ running = 0 /\ want = -1 /\ alive = FALSE
Begin == /\ Is("begin") /\ ~alive
         /\ stream' = << >> /\ started' = 0 /\ running' = 0 /\ want' = -1 /\ alive' = TRUE
\* called by the buffer
Gen == /\ Is("gen") /\ alive /\ running = 0
       /\ E.size > 0
       /\ running' = E.size /\ started' = started + 1
       /\ UNCHANGED <<stream, want, alive>>
\* `stream` holds what has been generated but not handed out
GenEnd == /\ Is("gend") /\ alive /\ running = Len(E.vals)
          /\ stream' = stream \o E.vals /\ running' = 0
          /\ UNCHANGED <<started, want, alive>>
Get == Is("get") /\ alive /\ want = -1 /\ want' = E.size /\ UNCHANGED <<stream, started, running, alive>>
Got == /\ Is("got") /\ alive /\ want = Len(E.vals)
       /\ Len(stream) >= want
       /\ E.vals = SubSeq(stream, 1, want)
       /\ stream' = SubSeq(stream, want + 1, Len(stream)) /\ want' = -1
       /\ UNCHANGED <<started, running, alive>>
Gone == /\ Is("destroyed") /\ alive /\ want = -1 /\ running = 0
        /\ alive' = FALSE /\ UNCHANGED <<stream, started, running, want>>

Next == Begin \/ Gen \/ GenEnd \/ Get \/ Got \/ Gone
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter) \o ": " \o ToString(Trace[TLCGet("stats").diameter])) /\ FALSE
=============================================================================
