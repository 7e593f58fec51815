------------------------------- MODULE Encoder -------------------------------
(***************************************************************************)
(* The ORAM index table of one encoder.  Rows come in batches; a row the   *)
(* filter rejects gets the one number all rejected rows share, a new row   *)
(* the next free number, a known row its number.  Checked for every order  *)
(* of arrival: the numbers in use are 0 .. size - 1, no two kinds of rows  *)
(* share one, nothing ever changes its number, and decoding an exported    *)
(* table, at any later time, gives back the row, or nothing for rejected.  *)
(* Mistake: "none"; "late" gives the rejected rows number 0 whatever is    *)
(* taken; "perBatch" forgets between batches that any row was rejected.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Rows, Rejected, MaxSteps, Mistake
VARIABLES table, out, next, given, steps, exported
vars == <<table, out, next, given, steps, exported>>

Init == table = << >> /\ out = -1 /\ next = 0 /\ given = {} /\ steps = 0 /\ exported = {}
Take(r) == IF r \in Rejected
           THEN LET o == IF out # -1 THEN out ELSE IF Mistake = "late" THEN 0 ELSE next
                IN  /\ out' = o /\ next' = (IF out = -1 THEN next + 1 ELSE next)
                    /\ given' = given \cup {<<r, o>>} /\ UNCHANGED table
           ELSE IF r \in DOMAIN table
           THEN given' = given \cup {<<r, table[r]>>} /\ UNCHANGED <<table, out, next>>
           ELSE /\ table' = [x \in DOMAIN table \cup {r} |-> IF x = r THEN next ELSE table[x]]
                /\ next' = next + 1 /\ given' = given \cup {<<r, next>>} /\ UNCHANGED out
Encode == \E r \in Rows : Take(r) /\ UNCHANGED exported
\* between batches a copy of the table may be taken away
Export == exported' = exported \cup {<<table, out>>} /\ UNCHANGED <<table, out, next, given>>
NewBatch == /\ Mistake = "perBatch" /\ out' = -1 /\ UNCHANGED <<table, next, given, exported>>
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Encode \/ Export \/ NewBatch)
Spec == Init /\ [][Next]_vars

Used == {table[r] : r \in DOMAIN table} \cup (IF out = -1 THEN {} ELSE {out})
Dense == Used = 0..(next - 1) /\ next = Cardinality(DOMAIN table) + (IF out = -1 THEN 0 ELSE 1)
OneNumber == \A g, h \in given : g[1] = h[1] => g[2] = h[2]
OneKind == \A g, h \in given : g[2] = h[2] => (g[1] = h[1] \/ {g[1], h[1]} \subseteq Rejected)
DecodedBy(x, i) == IF i = x[2] THEN "nothing" ELSE CHOOSE r \in DOMAIN x[1] : x[1][r] = i
RoundTrip == \A x \in exported : \A g \in given :
               (g[2] = x[2] \/ g[2] \in {x[1][r] : r \in DOMAIN x[1]})
                 => DecodedBy(x, g[2]) = (IF g[1] \in Rejected THEN "nothing" ELSE g[1])
==============================================================================
