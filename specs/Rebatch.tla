------------------------------- MODULE Rebatch -------------------------------
(***************************************************************************)
(* Batches are put together and taken apart: a value with others gives one *)
(* batch in the order of the arguments; a strategy of sizes takes a batch  *)
(* apart, which is refused when the sizes ask for more than there is.      *)
(* Checked for every sequence of both over every set of batches: elements  *)
(* are never lost, doubled or reordered, taking apart by the sizes that    *)
(* were put together gives the batches back, and too much is refused.      *)
(* Mistake: "none"; "order": the value itself comes last; "offset": every  *)
(* batch begins one early; "short": the last batch loses its end; "wrap":  *)
(* too much starts again at the front.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Elements, MaxSteps, Mistake
VARIABLES pool, whole, sizes, steps, refused
\* pool: the batches there are; whole: the last batch put together; sizes: of what it was made of
vars == <<pool, whole, sizes, steps, refused>>
Concat(q) == LET f[i \in Nat] == IF i = 0 THEN << >> ELSE f[i - 1] \o q[i] IN f[Len(q)]
Sum(q) == LET f[i \in Nat] == IF i = 0 THEN 0 ELSE f[i - 1] + q[i] IN f[Len(q)]
Cuts(n) == UNION {{c \in [1..k -> 1..n] : TRUE} : k \in 1..n}

\* the elements 1..Elements, cut in every way
Init == /\ \E c \in Cuts(Elements) : /\ Sum(c) = Elements
                                     /\ pool = [i \in 1..Len(c) |-> [j \in 1..c[i] |-> Sum(SubSeq(c, 1, i - 1)) + j]]
        /\ whole = << >> /\ sizes = << >> /\ steps = 0 /\ refused = FALSE
Join == /\ pool # << >> /\ steps < MaxSteps /\ steps' = steps + 1 /\ whole = << >>
        /\ whole' = (IF Mistake = "order" THEN Concat(Tail(pool)) \o Head(pool) ELSE Concat(pool))
        /\ sizes' = [i \in 1..Len(pool) |-> Len(pool[i])]
        /\ pool' = << >> /\ UNCHANGED refused
Piece(c, i) == LET at == Sum(SubSeq(c, 1, i - 1))
                   from == IF Mistake = "offset" /\ i > 1 THEN at ELSE at + 1
               IN  [j \in 1..(IF Mistake = "short" /\ i = Len(c) /\ c[i] > 1 THEN c[i] - 1 ELSE c[i]) |->
                      whole[IF Mistake = "wrap" THEN ((from + j - 2) % Len(whole)) + 1 ELSE from + j - 1]]
Split(c) == /\ whole # << >> /\ steps < MaxSteps /\ steps' = steps + 1
            /\ IF Sum(c) > Len(whole) /\ Mistake # "wrap" THEN refused' = TRUE /\ UNCHANGED <<pool, whole, sizes>>
               ELSE /\ pool' = [i \in 1..Len(c) |-> Piece(c, i)] /\ whole' = << >> /\ refused' = FALSE
                    /\ UNCHANGED sizes
Next == Join \/ \E c \in Cuts(Elements) : (Sum(c) = Len(whole) \/ Sum(c) > Len(whole)) /\ Split(c)
Spec == Init /\ [][Next]_vars

Kept == LET all == Concat(pool) \o whole IN Len(all) = Elements /\ \A i \in 1..Elements : all[i] = i
Shapes == refused => whole # << >>
==============================================================================
