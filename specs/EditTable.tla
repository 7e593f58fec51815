------------------------------ MODULE EditTable ------------------------------
(***************************************************************************)
(* The weighted edit distance, filled in row by row, against its meaning:  *)
(* the least cost of any way to walk through both words by inserting,      *)
(* deleting and keeping or replacing letters.                              *)
(* Mistake: "none"; "unitEdge": the first row and column count 1 per step; *)
(* "noKeep": equal letters are paid for; "noDelete"; "stale": the diagonal *)
(* is read after it was overwritten.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Letters, MaxLen, Costs, Mistake
VARIABLES s, t, ins, del, rep, i, j, d
vars == <<s, t, ins, del, rep, i, j, d>>
Words == UNION {[1..n -> Letters] : n \in 0..MaxLen}
Min2(x, y) == IF x < y THEN x ELSE y
Unit(c) == IF Mistake = "unitEdge" THEN 1 ELSE c
Init == /\ s \in Words /\ t \in Words /\ ins \in Costs /\ del \in Costs /\ rep \in Costs
        /\ i = 1 /\ j = 1
        /\ d = [p \in {<<0, k>> : k \in 0..Len(t)} \cup {<<k, 0>> : k \in 0..Len(s)} |->
                  IF p[1] = 0 THEN p[2] * Unit(ins) ELSE p[1] * Unit(del)]
Step == /\ i <= Len(s) /\ j <= Len(t)
        /\ LET keep == IF s[i] = t[j] /\ Mistake # "noKeep" THEN 0 ELSE rep
               diag == IF Mistake = "stale" /\ j > 1 THEN d[<<i, j - 1>>] ELSE d[<<i - 1, j - 1>>]
               up == IF Mistake = "noDelete" THEN diag + keep ELSE d[<<i - 1, j>>] + del
               v == Min2(Min2(diag + keep, up), d[<<i, j - 1>>] + ins)
           IN  d' = [p \in DOMAIN d \cup {<<i, j>>} |-> IF p = <<i, j>> THEN v ELSE d[p]]
        /\ IF j = Len(t) THEN j' = 1 /\ i' = i + 1 ELSE j' = j + 1 /\ i' = i
        /\ UNCHANGED <<s, t, ins, del, rep>>
Next == Step
Spec == Init /\ [][Next]_vars
\* the least cost over all walks, each a choice at every step
RECURSIVE Walks(_, _)
Walks(a, b) ==
    IF a = 0 /\ b = 0 THEN {0}
    ELSE (IF a > 0 THEN {c + del : c \in Walks(a - 1, b)} ELSE {})
         \cup (IF b > 0 THEN {c + ins : c \in Walks(a, b - 1)} ELSE {})
         \cup (IF a > 0 /\ b > 0 THEN {c + (IF s[a] = t[b] THEN 0 ELSE rep) : c \in Walks(a - 1, b - 1)} ELSE {})
Done == i > Len(s) \/ Len(t) = 0
Distance == Done => LET w == Walks(Len(s), Len(t)) IN d[<<Len(s), Len(t)>>] = CHOOSE x \in w : \A y \in w : x <= y
==============================================================================
