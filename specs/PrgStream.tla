------------------------------ MODULE PrgStream ------------------------------
(***************************************************************************)
(* The generator: blocks numbered 0, 1, 2, ... are encrypted into a buffer *)
(* of bytes; a request takes what is left of the buffer, then whole new    *)
(* fillings and the beginning of one more.  A bit request takes the bytes  *)
(* it needs and drops the bits over; an in-place request (only without a   *)
(* buffer) takes whole blocks.  A byte is written here as its place in the *)
(* stream.                                                                 *)
(* Checked: the bytes taken by the requests, put together, are the places  *)
(* 0, 1, 2, ..., each once and in order.                                   *)
(* Mistake: "none"; "dropRest": the rest of the buffer is thrown away when *)
(* a request goes beyond it; "repeat": the counter stays when a block was  *)
(* used in part; "behind": the next filling is taken from where the        *)
(* request began.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS BlockLen, Fill, MaxTotal, Mistake
\* Fill: bytes per filling (a whole number of blocks); MaxTotal bounds what is asked for
VARIABLES counter, buffer, out, asked
vars == <<counter, buffer, out, asked>>
CeilDiv(a, b) == (a + b - 1) \div b

Init == counter = 0 /\ buffer = << >> /\ out = << >> /\ asked = 0
\* n bytes starting at a block, and the counter after them
Made(c, n) == [i \in 1..n |-> c * BlockLen + i - 1]
After(c, n) == c + (IF Mistake = "repeat" THEN n \div BlockLen ELSE CeilDiv(n, BlockLen))

Take(n) ==
    LET fills == CeilDiv(n - Len(buffer), Fill)
        Bytes[f \in Nat] == IF f = 0 THEN << >> ELSE Bytes[f - 1] \o Made(counter + (f - 1) * (Fill \div BlockLen), Fill)
        all == (IF Mistake = "dropRest" THEN << >> ELSE buffer) \o Bytes[IF Mistake = "dropRest" THEN CeilDiv(n, Fill) ELSE fills]
        made == IF Mistake = "dropRest" THEN CeilDiv(n, Fill) ELSE fills
    IN  IF n <= Len(buffer) THEN /\ out' = out \o SubSeq(buffer, 1, n) /\ buffer' = SubSeq(buffer, n + 1, Len(buffer))
                                 /\ UNCHANGED counter
        ELSE /\ out' = out \o SubSeq(all, 1, n)
             /\ buffer' = SubSeq(all, (IF Mistake = "behind" /\ n < Len(all) THEN n ELSE n + 1), Len(all))
             /\ counter' = counter + made * (Fill \div BlockLen)
InPlace(n) == /\ out' = out \o Made(counter, n * BlockLen) /\ counter' = counter + n /\ UNCHANGED buffer
\* without a buffer, bits asked for in place are cut from whole blocks; the rest is dropped, the counter moves on
BitsInPlace(n) == /\ out' = out \o Made(counter, CeilDiv(n, BlockLen) * BlockLen)
                  /\ counter' = After(counter, n) /\ UNCHANGED buffer
Next == /\ \E n \in 1..MaxTotal : /\ asked + n <= MaxTotal /\ asked' = asked + n
                                  /\ IF Fill > 0 THEN Take(n) ELSE InPlace(n) \/ BitsInPlace(n)
Spec == Init /\ [][Next]_vars

InOrder == \A i \in 1..Len(out) : out[i] = i - 1
Enough == Fill > 0 => Len(out) = asked
==============================================================================
