------------------------------- MODULE Traffic -------------------------------
(***************************************************************************)
(* The account of bytes.  A session has two or more parties; every party   *)
(* holds connections to each other party: those its engine opens values    *)
(* over, and those its generators of boolean and of integer tuples work    *)
(* over, each kind having connections of its own or none.  Each end of a   *)
(* connection counts what it sent and received.  A report adds up the      *)
(* counts; giving the engine up keeps the last report.                     *)
(*                                                                         *)
(* Mistake selects a deliberately wrong account, which must be refuted:    *)
(*  "noInts"   what the integer tuples cost is left out                    *)
(*  "oneIsAll" only the last of the generators per kind is counted         *)
(*  "swapped"  sent and received are exchanged for the tuples              *)
(*  "twice"    the opening connections are counted by the tuples as well   *)
(*  "lost"     the account goes with the engine                            *)
(*  "refused"  a kind without connections makes the report fail            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS N, MaxBytes, Mistake

Party == 1..N
Kinds == {"open", "bool", "int"}

VARIABLES has,     \* the kinds of tuples this session can make
          sent,    \* sent[p][q][k]: bytes p sent to q over the connection of kind k
          on,      \* whether party p still has its engine
          kept,    \* the report kept when it went
          failed   \* a report that could not be given
vars == <<has, sent, on, kept, failed>>

RECURSIVE Add(_)
Add(f) == IF DOMAIN f = {} THEN 0
          ELSE LET x == CHOOSE y \in DOMAIN f : TRUE IN f[x] + Add([z \in DOMAIN f \ {x} |-> f[z]])

Others(p) == Party \ {p}
Last(p) == CHOOSE q \in Others(p) : \A r \in Others(p) : r <= q
Live == {"open"} \cup has

\* what one connection's end says: <<sent, received>>
End(p, q, k) == <<sent[p][q][k], sent[q][p][k]>>

Of(p, k, d) ==
  LET whom == IF Mistake = "oneIsAll" /\ k # "open" THEN {Last(p)} ELSE Others(p)
      side == IF Mistake = "swapped" /\ k # "open" THEN 3 - d ELSE d
  IN Add([q \in whom |-> End(p, q, k)[side]])

Counted == IF Mistake = "noInts" THEN Kinds \ {"int"} ELSE Kinds
Report(p) ==
  [d \in 1..2 |->
     Add([k \in Counted |-> Of(p, k, d)]) + (IF Mistake = "twice" /\ has # {} THEN Of(p, "open", d) ELSE 0)]

Fails == Mistake = "refused" /\ has # {"bool", "int"}

\* what really went over the party's connections
Real(p) == [d \in 1..2 |-> Add([c \in Others(p) \X Kinds |-> End(p, c[1], c[2])[d]])]

Said(p) == IF on[p] THEN Report(p) ELSE kept[p]

Init == /\ has \in SUBSET {"bool", "int"}
        /\ sent = [p \in Party |-> [q \in Party |-> [k \in Kinds |-> 0]]]
        /\ on = [p \in Party |-> TRUE]
        /\ kept = [p \in Party |-> <<0, 0>>]
        /\ failed = FALSE

Total(p) == Real(p)[1]

Send(p, q, k) == /\ on[p] /\ on[q] /\ k \in Live /\ Total(p) < MaxBytes
                 /\ sent' = [sent EXCEPT ![p][q][k] = @ + 1]
                 /\ UNCHANGED <<has, on, kept, failed>>

GiveUp(p) == /\ on[p]
             /\ on' = [on EXCEPT ![p] = FALSE]
             /\ kept' = [kept EXCEPT ![p] = IF Mistake = "lost" THEN <<0, 0>> ELSE Report(p)]
             /\ failed' = (failed \/ Fails)
             /\ UNCHANGED <<has, sent>>

Ask(p) == failed' = (failed \/ (on[p] /\ Fails)) /\ UNCHANGED <<has, sent, on, kept>>

Next == \E p \in Party : GiveUp(p) \/ Ask(p) \/ \E q \in Others(p), k \in Kinds : Send(p, q, k)
Spec == Init /\ [][Next]_vars

\* every party is told exactly what went over its connections, before and after
Exact == \A p \in Party : Said(p) = Real(p)
Answers == ~failed
\* what the parties sent in all is what they received in all, in the reports as well
Balanced == Add([p \in Party |-> Said(p)[1]]) = Add([p \in Party |-> Said(p)[2]])
=============================================================================
