------------------------------ MODULE Beaver ------------------------------
(***************************************************************************)
(* Multiplication of shared values with a multiplication tuple, over the   *)
(* integers modulo M (M = 2: bits and the AND gate).  Every party holds a  *)
(* share of the operands x, y of each gate and of the tuple (a, b, a*b)    *)
(* the gate takes; it publishes its shares of x - a and y - b and, once it *)
(* has everybody's, computes its share of the product alone.               *)
(*                                                                         *)
(* Correct: the shares of the result add up to the product.                *)
(* Hidden: whatever the operands were, a party's published values could    *)
(* have come from any other operands - for every change of the operands    *)
(* there is a change of the honest party's tuple shares that leaves all it *)
(* published as it is (adding is a bijection of the tuples, so the two     *)
(* views have the same distribution).  Both fail for a tuple used twice.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS N,       \* parties
          M,       \* modulus
          G,       \* gates
          Mistake  \* "none", "reuse" (one tuple for all gates), "alladd" (everybody adds d*e), "order" (does not wait for everybody)

Parties == 1..N
Gates == 1..G
Z == 0..(M - 1)
Tup(g) == IF Mistake = "reuse" THEN 1 ELSE g
Tuples == {Tup(g) : g \in Gates}

VARIABLES x, y, a, b, c, pub, z
vars == <<x, y, a, b, c, pub, z>>

RECURSIVE Sum(_, _)
Sum(f, p) == IF p = 0 THEN 0 ELSE (f[p] + Sum(f, p - 1)) % M
S(f) == Sum(f, N)

None == [d |-> -1, e |-> -1]

Init == /\ x \in [Gates -> [Parties -> Z]] /\ y \in [Gates -> [Parties -> Z]]
        /\ a \in [Tuples -> [Parties -> Z]] /\ b \in [Tuples -> [Parties -> Z]]
        /\ c \in {f \in [Tuples -> [Parties -> Z]] : \A t \in Tuples : S(f[t]) = (S(a[t]) * S(b[t])) % M}
        /\ pub = [p \in Parties |-> [g \in Gates |-> None]]
        /\ z = [p \in Parties |-> [g \in Gates |-> -1]]

Mask(p) == [g \in Gates |-> [d |-> (x[g][p] + M - a[Tup(g)][p]) % M, e |-> (y[g][p] + M - b[Tup(g)][p]) % M]]
Publish(p) == /\ pub[p][1] = None
              /\ \A q \in 1..(p - 1) : pub[q][1] # None    \* the order of the parties does not matter
              /\ pub' = [pub EXCEPT ![p] = Mask(p)]
              /\ UNCHANGED <<x, y, a, b, c, z>>
Seen(p) == IF Mistake = "order" THEN {q \in Parties : q <= p} ELSE Parties
Compute(p) == /\ z[p][1] = -1
              /\ \A q \in Seen(p) : pub[q][1] # None
              /\ \A q \in 1..(p - 1) : z[q][1] # -1
              /\ LET dd(g) == S([q \in Parties |-> IF q \in Seen(p) THEN pub[q][g].d ELSE 0])
                     ee(g) == S([q \in Parties |-> IF q \in Seen(p) THEN pub[q][g].e ELSE 0])
                 IN z' = [z EXCEPT ![p] = [g \in Gates |->
                        (c[Tup(g)][p] + dd(g) * b[Tup(g)][p] + ee(g) * a[Tup(g)][p]
                           + (IF p = 1 \/ Mistake = "alladd" THEN dd(g) * ee(g) ELSE 0)) % M]]
              /\ UNCHANGED <<x, y, a, b, c, pub>>
Next == (\E p \in Parties : Publish(p) \/ Compute(p)) \/ ((\A p \in Parties : z[p][1] # -1) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Done == \A p \in Parties : z[p][1] # -1
Correct == Done => \A g \in Gates : S([p \in Parties |-> z[p][g]]) = (S(x[g]) * S(y[g])) % M

\* what the honest party h would have published with its operands moved by dx, dy and its tuple shares by da, db
Moved(h, dx, dy, da, db) == [g \in Gates |->
    [d |-> (x[g][h] + dx[g] + M - ((a[Tup(g)][h] + da[Tup(g)]) % M)) % M,
     e |-> (y[g][h] + dy[g] + M - ((b[Tup(g)][h] + db[Tup(g)]) % M)) % M]]
Hidden == Done => \A h \in Parties : \A dx, dy \in [Gates -> Z] :
             \E da, db \in [Tuples -> Z] : Moved(h, dx, dy, da, db) = pub[h]
=============================================================================
