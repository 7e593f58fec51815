------------------------------- MODULE Compact -------------------------------
(***************************************************************************)
(* Shuffle-based compaction and the intersection adapter built on it.      *)
(* A column of items with secret labels is shuffled by one order of each   *)
(* party, the shuffled labels are opened and the items labelled 1 kept.    *)
(* Checked for every label pattern and every pair of orders: what is kept  *)
(* is exactly what was labelled; and, as a matter of counting, what both   *)
(* parties see (the opened labels) depends on nothing but the number of    *)
(* 1s: every arrangement of them is opened under equally many orders, also *)
(* for a party who knows his own.                                          *)
(* The adapter does this with a union's members, labelled by whether both  *)
(* parties have them: both parties' lists stay aligned.                    *)
(* Mistake: "none"; "oneOrder": the second order is left out; "plain":     *)
(* nothing is shuffled; "apart": the labels are shuffled without the items.*)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS N, Mistake
VARIABLES labels, p, q
vars == <<labels, p, q>>
Orders == {f \in [1..N -> 1..N] : \A i, j \in 1..N : f[i] = f[j] => i = j}
Init == labels \in [1..N -> {0, 1}] /\ p \in Orders /\ q \in Orders
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Under(lab, a, b) == LET x == IF Mistake = "plain" THEN [i \in 1..N |-> i] ELSE IF Mistake = "oneOrder" THEN a ELSE [i \in 1..N |-> a[b[i]]]
                    IN  [i \in 1..N |-> <<IF Mistake = "apart" THEN i ELSE x[i], lab[x[i]]>>]
Opened(lab, a, b) == [i \in 1..N |-> Under(lab, a, b)[i][2]]
Kept == LET u == Under(labels, p, q) IN [k \in {i \in 1..N : u[i][2] = 1} |-> u[k][1]]
Exactly == LET k == Kept IN /\ {k[i] : i \in DOMAIN k} = {i \in 1..N : labels[i] = 1}
                            /\ Cardinality(DOMAIN k) = Cardinality({i \in 1..N : labels[i] = 1})
\* what a party who chose p sees, counted over the other's orders, and the other way round
Ones(lab) == Cardinality({i \in 1..N : lab[i] = 1})
Ways1(lab, o) == Cardinality({b \in Orders : Opened(lab, p, b) = o})
Ways2(lab, o) == Cardinality({a \in Orders : Opened(lab, a, q) = o})
Id == [i \in 1..N |-> i]
Sorted(lab) == \A i, j \in 1..N : i < j => lab[i] >= lab[j]
\* (compared with the pattern that has the 1s in front; the other's order does not occur in the count)
Hidden == \A o \in [1..N -> {0, 1}], front \in [1..N -> {0, 1}] :
            (Ones(o) = Ones(labels) /\ Ones(front) = Ones(labels) /\ Sorted(front)) =>
               /\ q = Id => Ways1(front, o) = Ways1(labels, o)
               /\ p = Id => Ways2(front, o) = Ways2(labels, o)
==============================================================================
