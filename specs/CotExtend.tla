------------------------------ MODULE CotExtend ------------------------------
(***************************************************************************)
(* Extending correlated transfers (Ferret): n keys of the form             *)
(* received = sent + choice * delta, sparse choices from point transfers,  *)
(* are added to the image of k earlier keys under a public matrix, which   *)
(* makes the choices look random.  Of the result the first k serve as the  *)
(* base of the next round, the others are handed out.                      *)
(* Keys are numbers of Bits bits under XOR, the last bit carries the       *)
(* choice: sent keys end in 0, delta in 1.                                 *)
(* Checked over every delta, base keys, choices, places and matrix: what   *)
(* is handed out is correlated, with the choice as the receiver's last     *)
(* bit; what is kept is never handed out.                                  *)
(* Mistake: "none"; "evenDelta"; "oddRow" lets rows of the matrix have an  *)
(* odd number of ones without clearing the last bit; "keepsGiven" keeps    *)
(* the last k of those handed out.                                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, Bitwise

CONSTANTS Bits, K, N, Rounds, Mistake
VARIABLES delta, sent, recv, out, round, used
\* sent, recv: the base of the next round; out: pairs handed out; used: the names of the keys handed out
vars == <<delta, sent, recv, out, round, used>>
Keys == 0..(2 ^ Bits - 1)
Even == {x \in Keys : x % 2 = 0}
Init == /\ delta \in (IF Mistake = "evenDelta" THEN Keys ELSE Keys \ Even)
        /\ sent \in [1..K -> Even]
        /\ \E c \in [1..K -> {0, 1}] : recv = [i \in 1..K |-> IF c[i] = 1 THEN sent[i] ^^ delta ELSE sent[i]]
        /\ out = {} /\ round = 0 /\ used = {}
RECURSIVE Sum(_, _, _)
Sum(v, row, i) == IF i = 0 THEN 0 ELSE IF i \in row THEN v[i] ^^ Sum(v, row, i - 1) ELSE Sum(v, row, i - 1)
\* a fresh sparse block: sent keys, one place where the receiver's differs
Extend == /\ round < Rounds /\ round' = round + 1 /\ UNCHANGED delta
          /\ \E fresh \in [1..N -> {0, 2}], p \in 1..N, m \in [1..N -> SUBSET (1..K)] :
               LET s == [i \in 1..N |-> fresh[i] ^^ Sum(sent, m[i], K)]
                   r0 == [i \in 1..N |-> (IF i = p THEN fresh[i] ^^ delta ELSE fresh[i]) ^^ Sum(recv, m[i], K)]
                   kept == IF Mistake = "keepsGiven" THEN (N - K + 1)..N ELSE 1..K
                   given == (K + 1)..N
                   Nth(S, i) == CHOOSE x \in S : Cardinality({y \in S : y <= x}) = i
               IN  /\ sent' = [i \in 1..K |-> s[Nth(kept, i)]]
                   /\ recv' = [i \in 1..K |-> r0[Nth(kept, i)]]
                   /\ out' = {<<s[i], IF Mistake = "oddRow" THEN (IF i = p THEN r0[i] ^^ 1 ELSE r0[i]) ELSE r0[i]>> : i \in given}
                   /\ used' = {<<round, i>> : i \in given} \cap {<<round, i>> : i \in kept}
Spec == Init /\ [][Extend]_vars
Right(s, r) == s % 2 = 0 /\ r = (IF r % 2 = 1 THEN s ^^ delta ELSE s)
Correlated == (\A x \in out : Right(x[1], x[2])) /\ \A i \in 1..K : Right(sent[i], recv[i])
KeptApart == used = {}
==============================================================================
