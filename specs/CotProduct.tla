----------------------------- MODULE CotProduct -----------------------------
(***************************************************************************)
(* Adding a feature to a sum under a shared label by correlated OT with    *)
(* random messages, modulo Q: the owner of the features (label shares l0)  *)
(* gets both keys of every transfer, the other side (l1) the key chosen by *)
(* its share.  The owner sends one correction per label and subtracts its  *)
(* noise from the masked sum that comes back; the other side adds its own  *)
(* noise to that sum.                                                      *)
(* Checked for every feature, sharing, keys and noise: the owner learns    *)
(* the sum of the labelled features plus the noise; what the other side    *)
(* sees is the same for every feature and every share of the label.        *)
(* Mistake: "none"; "bareKey": the correction uses no key 1; "oneKey": both*)
(* keys are equal; "ownLabel": the owner's share is ignored; "lost": the   *)
(* noise of a label replaces that of the label before.                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Q, Labels, Mistake
VARIABLES k, features, shares, noise, sum, seen
vars == <<k, features, shares, noise, sum, seen>>
Z == 0..(Q - 1)
Bit == {0, 1}

\* one transfer: what the owner keeps as noise, what it sends, and what the other side makes of it
Noise(m, l0, k0) == (k0 - (IF l0 = 1 /\ Mistake # "ownLabel" THEN m ELSE 0)) % Q
Correction(m, l0, k0, k1) ==
    ((IF Mistake = "bareKey" THEN 0 ELSE k1) - Noise(m, l0, k0) - (IF l0 = 0 \/ Mistake = "ownLabel" THEN m ELSE 0)) % Q
Plain(l1, key, c) == IF l1 = 1 THEN ((IF Mistake = "bareKey" THEN 0 ELSE key) - c) % Q ELSE key
Keys == {kk \in Z \X Z : Mistake = "oneKey" => kk[1] = kk[2]}

Init == /\ k = 0 /\ features = << >> /\ shares = << >> /\ noise = 0 /\ sum = 0 /\ seen = << >>
Transfer == /\ k < Labels /\ k' = k + 1
            /\ \E m \in Z, l0 \in Bit, l1 \in Bit, kk \in Keys :
                 LET c == Correction(m, l0, kk[1], kk[2])
                     key == IF l1 = 1 THEN kk[2] ELSE kk[1]
                 IN  /\ features' = Append(features, m) /\ shares' = Append(shares, <<l0, l1>>)
                     /\ noise' = ((IF Mistake = "lost" THEN 0 ELSE noise) + Noise(m, l0, kk[1])) % Q
                     /\ sum' = (sum + Plain(l1, key, c)) % Q
                     /\ seen' = Append(seen, <<l1, key, c>>)
Next == Transfer
Spec == Init /\ [][Next]_vars

Sum[i \in Nat] == IF i = 0 THEN 0 ELSE (Sum[i - 1] + (IF shares[i][1] # shares[i][2] THEN features[i] ELSE 0)) % Q
Product == \A dp \in Z : (sum + dp - noise) % Q = (Sum[k] + dp) % Q
\* the last thing seen could have come from every feature and every share of the owner, by equally many keys
Ways(v, m, l0) == Cardinality({kk \in Keys : Correction(m, l0, kk[1], kk[2]) = v[3]
                                             /\ v[2] = (IF v[1] = 1 THEN kk[2] ELSE kk[1])})
Hidden == k = 0 \/ \A m \in Z, l0 \in Bit : Ways(seen[k], m, l0) = Ways(seen[k], 0, 0)
==============================================================================
