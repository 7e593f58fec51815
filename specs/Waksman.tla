------------------------------- MODULE Waksman -------------------------------
(***************************************************************************)
(* The permutation network of AsWaksmanPermuter: n inputs, a first row of  *)
(* switches over positions i and i + n/2 (the last input of an odd column  *)
(* has none and goes to the second half), two smaller networks, and a      *)
(* second row of switches (the last output has none and comes from the     *)
(* second half; for even n the last output of the first half has none      *)
(* either).  result[j] = source[order[j]].                                 *)
(*                                                                         *)
(* The machine sets one order's switches: it takes an output that is not   *)
(* served yet, picks a half for it where it is free to, and follows the    *)
(* chain of consequences.  Checked for every order and every pick: it      *)
(* never gets stuck, the two smaller orders are orders again, and the      *)
(* whole yields the order.                                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANT MaxN
VARIABLES n, order, out2in
\* out2in[j]: which half serves output j (0 first, 1 second), -1 = undecided
vars == <<n, order, out2in>>

Orders(k) == {f \in [0..(k - 1) -> 0..(k - 1)] : \A i, j \in 0..(k - 1) : f[i] = f[j] => i = j}
Init == /\ n \in 2..MaxN
        /\ order \in Orders(n)
        /\ out2in = [j \in 0..(n - 1) |-> IF j = n - 1 THEN 1 ELSE IF n % 2 = 0 /\ j = n \div 2 - 1 THEN 0 ELSE -1]

H == n \div 2                                  \* size of the first half
\* the position within its half, and the partner behind the same switch (-1: none)
Sub(j) == IF j < H THEN j ELSE j - H
InDual(i) == IF n % 2 = 1 /\ i = n - 1 THEN -1 ELSE IF i < H THEN i + H ELSE i - H
OutDual(j) == IF j = n - 1 THEN (IF n % 2 = 0 THEN H - 1 ELSE -1)
              ELSE IF n % 2 = 0 /\ j = H - 1 THEN n - 1
              ELSE IF j < H THEN j + H ELSE j - H
Inv(i) == CHOOSE j \in 0..(n - 1) : order[j] = i

\* what follows: partners behind one switch go to different halves, at either end; an odd last input is in the second
Must(j, h) == \/ OutDual(j) # -1 /\ out2in[OutDual(j)] = 1 - h
              \/ InDual(order[j]) # -1 /\ out2in[Inv(InDual(order[j]))] = 1 - h
              \/ InDual(order[j]) = -1 /\ h = 1
Follow == \E j \in 0..(n - 1), h \in {0, 1} :
            /\ out2in[j] = -1 /\ Must(j, h)
            /\ out2in' = [out2in EXCEPT ![j] = h]
Forced == \E j \in 0..(n - 1), h \in {0, 1} : out2in[j] = -1 /\ Must(j, h)
Pick == /\ ~Forced
        /\ \E j \in 0..(n - 1), h \in {0, 1} : out2in[j] = -1 /\ out2in' = [out2in EXCEPT ![j] = h]
Next == (Follow \/ Pick) /\ UNCHANGED <<n, order>>
Spec == Init /\ [][Next]_vars

Done == \A j \in 0..(n - 1) : out2in[j] # -1
NoClash == \A j \in 0..(n - 1) : out2in[j] # -1 => ~Must(j, 1 - out2in[j])
\* the network, evaluated
FirstSwap(i) == out2in[Inv(i)] = 1             \* i < H: input i goes to the second half
AfterFirst(h, k) == IF h = 1 /\ k = n - 1 - H /\ n % 2 = 1 THEN n - 1
                    ELSE IF FirstSwap(k) THEN (IF h = 0 THEN k + H ELSE k) ELSE (IF h = 0 THEN k ELSE k + H)
SubOrder(h) == [k \in 0..((IF h = 0 THEN H ELSE n - H) - 1) |->
                  Sub(order[CHOOSE j \in 0..(n - 1) : out2in[j] = h /\ Sub(j) = k])]
\* outputs behind one switch have the same place in their halves; the last of an even column keeps its half
Result(j) == LET h == out2in[j] IN AfterFirst(h, SubOrder(h)[Sub(j)])
Correct == Done => /\ \A h \in {0, 1} : LET so == SubOrder(h)
                                        IN  Cardinality({so[k] : k \in DOMAIN so}) = Cardinality(DOMAIN so)
                   /\ \A j \in 0..(n - 1) : Result(j) = order[j]
=============================================================================
