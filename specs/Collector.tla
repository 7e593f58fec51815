------------------------------ MODULE Collector ------------------------------
(***************************************************************************)
(* Metric collection: recorders are registered under names, change their   *)
(* metrics at any time, and are reported and added up on request.          *)
(* Checked for every history: every registered recorder is reported under  *)
(* one key of its own with its values of that moment, and the aggregate is *)
(* the sum over all registrations.                                         *)
(* Mistake: "none"; "drop": a name taken already keeps the first recorder; *)
(* "replace": keeps the last; "frozen": values of the registration;        *)
(* "last": the aggregate overwrites instead of adding.                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Recorders, Names, Metrics, MaxValue, MaxRegs, Mistake
VARIABLES value, table, regs, frozen
\* value: recorder -> metric -> number (-1: has none); table: key -> recorder; regs: registrations made
vars == <<value, table, regs, frozen>>

Init == /\ value = [r \in Recorders |-> [m \in Metrics |-> -1]] /\ table = << >> /\ regs = << >>
        /\ frozen = << >>
Key(n) == CHOOSE x \in Names \X (1..MaxRegs) : x[1] = n /\ x \notin DOMAIN table /\ \A j \in 1..(x[2] - 1) : <<n, j>> \in DOMAIN table
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Register(n, r) == /\ Len(regs) < MaxRegs /\ regs' = Append(regs, <<n, r>>) /\ UNCHANGED value
                  /\ frozen' = Append(frozen, value[r])
                  /\ table' = IF <<n, 1>> \in DOMAIN table /\ Mistake = "drop" THEN table
                              ELSE IF Mistake = "replace" THEN Put(table, <<n, 1>>, Len(regs) + 1)
                              ELSE Put(table, Key(n), Len(regs) + 1)
Update(r, m) == /\ value[r][m] < MaxValue /\ value' = [value EXCEPT ![r][m] = @ + 1] /\ UNCHANGED <<table, regs, frozen>>
Next == (\E n \in Names, r \in Recorders : Register(n, r)) \/ (\E r \in Recorders, m \in Metrics : Update(r, m))
Spec == Init /\ [][Next]_vars

Of(i) == IF Mistake = "frozen" THEN frozen[i] ELSE value[regs[i][2]]
Report == [x \in DOMAIN table |-> Of(table[x])]
Sum(S, m, v(_, _)) == LET f[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN f[T \ {t}] + v(t, m) IN f[S]
Val(i, m) == value[regs[i][2]][m]
Has(m) == {i \in 1..Len(regs) : Val(i, m) >= 0}
Shown(x, m) == Report[x][m]
Aggregate(m) == LET ks == {x \in DOMAIN table : Report[x][m] >= 0}
                IN  IF ks = {} THEN -1
                    ELSE IF Mistake = "last" THEN Report[CHOOSE x \in ks : \A y \in ks : table[y] <= table[x]][m]
                    ELSE Sum(ks, m, Shown)

Everyone == \A i \in 1..Len(regs) : \E x \in DOMAIN table : /\ table[x] = i /\ x[1] = regs[i][1]
                                                           /\ Report[x] = value[regs[i][2]]
OneKeyEach == Cardinality(DOMAIN table) = Len(regs)
Exact == \A m \in Metrics : Aggregate(m) = (IF Has(m) = {} THEN -1 ELSE Sum(Has(m), m, Val))
==============================================================================
