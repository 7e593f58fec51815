------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* Parties that exchange messages over channels without a buffer: a send   *)
(* ends when the peer has received it.  Each party is a sequence of steps  *)
(* <<peer, 1 = send / 0 = receive, message>>.  A message may be taken in   *)
(* pieces.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES progs,  \* party -> its steps
          pc,     \* party -> current step
          off     \* party -> bytes of the current step already transferred
xvars == <<progs, pc, off>>
Ps == DOMAIN progs
Cur(p) == progs[p][pc[p]]
Active(p) == pc[p] <= Len(progs[p])
Left(p) == Len(Cur(p)[3]) - off[p]
Min(a, b) == IF a < b THEN a ELSE b

StartWith(ps) == progs = ps /\ pc = [p \in DOMAIN ps |-> 1] /\ off = [p \in DOMAIN ps |-> 0]

\* p sends to q, q receives from p: the next k bytes move, and are the same at both ends
CanMeet(p, q) == Active(p) /\ Active(q) /\ Cur(p)[1] = q /\ Cur(p)[2] = 1 /\ Cur(q)[1] = p /\ Cur(q)[2] = 0
SameBytes(p, q, k) == SubSeq(Cur(p)[3], off[p] + 1, off[p] + k) = SubSeq(Cur(q)[3], off[q] + 1, off[q] + k)
Meet(p, q) ==
    /\ CanMeet(p, q)
    /\ LET k == Min(Left(p), Left(q))
           nxt(r) == off[r] + k = Len(Cur(r)[3])
       IN /\ SameBytes(p, q, k)
          /\ pc' = [pc EXCEPT ![p] = IF nxt(p) THEN @ + 1 ELSE @, ![q] = IF nxt(q) THEN @ + 1 ELSE @]
          /\ off' = [off EXCEPT ![p] = IF nxt(p) THEN 0 ELSE @ + k, ![q] = IF nxt(q) THEN 0 ELSE @ + k]
    /\ UNCHANGED progs
Finished == \A p \in Ps : ~Active(p)
=============================================================================
