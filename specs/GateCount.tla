------------------------------ MODULE GateCount ------------------------------
(***************************************************************************)
(* Gate statistics.  A gate has a batch size and a number of outputs; it   *)
(* may need earlier gates.  The eager scheduler counts it when it is built *)
(* (it is computed then), the lazy one when it is executed, which asking   *)
(* for a value does for everything the value needs.                        *)
(* Checked for every program and every order of asking: the eager counts   *)
(* are those of the program so far, the lazy ones those of the gates asked *)
(* for (never more than the program's, and equal once all are executed);   *)
(* re-batching counts nothing.                                             *)
(* Mistake: "none"; "perGate": one per gate; "perBatch": one per element,  *)
(* whatever the outputs; "rebatch": re-batching counts; "twice": the lazy  *)
(* scheduler counts gates when they are built as well.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxGates, MaxBatch, MaxOut, Mistake
VARIABLES gates, done, eager, lazy      \* counts: <<free, non-free>>
vars == <<gates, done, eager, lazy>>

Init == gates = << >> /\ done = {} /\ eager = <<0, 0>> /\ lazy = <<0, 0>>
Units(g) == IF g.kind = "rebatch" THEN (IF Mistake = "rebatch" THEN g.n ELSE 0)
            ELSE IF Mistake = "perGate" THEN 1 ELSE IF Mistake = "perBatch" THEN g.n ELSE g.n * g.m
Plus(c, g) == IF g.kind = "nonfree" THEN <<c[1], c[2] + Units(g)>> ELSE <<c[1] + Units(g), c[2]>>
Build == /\ Len(gates) < MaxGates
         /\ \E kind \in {"free", "nonfree", "rebatch"}, n \in 1..MaxBatch, m \in 1..MaxOut, on \in SUBSET (1..Len(gates)) :
              LET g == [kind |-> kind, n |-> n, m |-> m, on |-> on]
              IN  /\ (kind = "rebatch" => m = 1) /\ Cardinality(on) <= 2
                  /\ gates' = Append(gates, g) /\ eager' = Plus(eager, g)
                  /\ lazy' = (IF Mistake = "twice" THEN Plus(lazy, g) ELSE lazy)
         /\ UNCHANGED done
Needs[S \in SUBSET (1..MaxGates)] == LET T == S \cup UNION {gates[i].on : i \in S} IN IF T = S THEN S ELSE Needs[T]
Add[S \in SUBSET (1..MaxGates)] == IF S = {} THEN <<0, 0>> ELSE LET i == CHOOSE i \in S : TRUE IN Plus(Add[S \ {i}], gates[i])
Ask == \E i \in 1..Len(gates) : LET new == Needs[{i}] \ done IN
          /\ new # {} /\ done' = done \cup new
          /\ lazy' = <<lazy[1] + Add[new][1], lazy[2] + Add[new][2]>>
          /\ UNCHANGED <<gates, eager>>
Next == Build \/ Ask
Spec == Init /\ [][Next]_vars

True(S, nf) == LET f[T \in SUBSET S] == IF T = {} THEN 0
                     ELSE LET i == CHOOSE i \in T : TRUE
                              g == gates[i]
                          IN  f[T \ {i}] + (IF (g.kind = "nonfree") = nf /\ g.kind # "rebatch" THEN g.n * g.m ELSE 0)
               IN f[S]
All == 1..Len(gates)
EagerExact == eager = <<True(All, FALSE), True(All, TRUE)>>
LazyExact == lazy = <<True(done, FALSE), True(done, TRUE)>>
Below == lazy[1] <= eager[1] /\ lazy[2] <= eager[2] /\ (done = All => lazy = eager)
==============================================================================
