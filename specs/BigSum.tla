------------------------------- MODULE BigSum -------------------------------
(***************************************************************************)
(* Who owns more: each side's items are added up in a machine integer of   *)
(* Width bits, as shares modulo 2^Width, and the sums compared.            *)
(* Checked for every list of items of ItemWidth bits: the verdict is that  *)
(* of the true totals - as long as the sum is wide enough.  Mistake:       *)
(* "none"; "narrow": sums as wide as the items (the application's own way, *)
(* see known_findings.txt); "orEqual"; "signed": compared as signed.       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS ItemWidth, MaxItems, Mistake
VARIABLES a, b, sa, sb
vars == <<a, b, sa, sb>>
P2[i \in Nat] == IF i = 0 THEN 1 ELSE 2 * P2[i - 1]
Items == 0..(P2[ItemWidth] - 1)
Width == IF Mistake \in {"narrow"} THEN ItemWidth ELSE ItemWidth + MaxItems
M == P2[Width]
Init == a = << >> /\ b = << >> /\ sa = 0 /\ sb = 0
Next == \/ Len(a) < MaxItems /\ \E x \in Items : a' = Append(a, x) /\ sa' = (sa + x) % M /\ UNCHANGED <<b, sb>>
        \/ Len(b) < MaxItems /\ \E x \in Items : b' = Append(b, x) /\ sb' = (sb + x) % M /\ UNCHANGED <<a, sa>>
Spec == Init /\ [][Next]_vars
Signed(v) == IF Mistake = "signed" /\ v >= P2[ItemWidth - 1] THEN v - M ELSE v
Verdict == IF Mistake = "orEqual" THEN sa >= sb ELSE Signed(sa) > Signed(sb)
Total(q) == LET f[i \in Nat] == IF i = 0 THEN 0 ELSE f[i - 1] + q[i] IN f[Len(q)]
Right == Verdict = (Total(a) > Total(b))
==============================================================================
