----------------------------- MODULE MCExchange -----------------------------
(***************************************************************************)
(* The exchange rule: go through the peers in the order of their numbers,  *)
(* send first to a smaller one, receive first from a greater one.  Every   *)
(* interleaving completes, for N parties and several rounds.               *)
(***************************************************************************)
EXTENDS Exchange
CONSTANTS N, Rounds
RECURSIVE Flat(_, _)
Flat(s, i) == IF i > Len(s) THEN << >> ELSE s[i] \o Flat(s, i + 1)
Others(p) == SelectSeq([i \in 1..N |-> i], LAMBDA q : q # p)
Msg(p, q, r) == <<p, q, r>>
OneRound(p, r) == Flat([i \in 1..(N - 1) |->
        LET q == Others(p)[i]
            s == <<q, 1, Msg(p, q, r)>>
            t == <<q, 0, Msg(q, p, r)>>
        IN IF q < p THEN <<s, t>> ELSE <<t, s>>], 1)
\* opening to one party: it receives from all in order, the others send
ToOne(p, id, r) == IF p = id THEN [i \in 1..(N - 1) |-> <<Others(p)[i], 0, Msg(Others(p)[i], p, r)>>]
                   ELSE << <<id, 1, Msg(p, id, r)>> >>
Plans == [1..Rounds -> 0..N]   \* 0: open to all, id: open to that party
Init == \E plan \in Plans : StartWith([p \in 1..N |-> Flat([r \in 1..Rounds |->
            IF plan[r] = 0 THEN OneRound(p, r) ELSE ToOne(p, plan[r], r)], 1)])
Next == (\E p, q \in Ps : Meet(p, q)) \/ (Finished /\ UNCHANGED xvars)
Spec == Init /\ [][Next]_xvars
=============================================================================
