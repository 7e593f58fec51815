---------------------------- MODULE RippleArith ----------------------------
(***************************************************************************)
(* The bit-serial algorithms of the frontend integers, one bit per step,   *)
(* for every width up to MaxW and every pair of operands.  Invariants tie  *)
(* each prefix to arithmetic: the sum/difference/negation modulo 2^i, the  *)
(* comparison of the low i bits, and the pairwise AND tree of equality.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT MaxW
VARIABLES op, w, x, y, i, carry, r, tree
vars == <<op, w, x, y, i, carry, r, tree>>

RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Bit(v, k) == (v \div P2(k)) % 2
Xor(a, b) == (a + b) % 2
And(a, b) == a * b
Not(a) == 1 - a
Signed(v) == IF Bit(v, w - 1) = 1 THEN v - P2(w) ELSE v

Init == /\ op \in {"add", "sub", "ult", "slt", "neg", "eq"}
        /\ w \in 1..MaxW /\ x \in 0..(P2(w) - 1) /\ y \in (IF op = "neg" THEN {0} ELSE 0..(P2(w) - 1))
        /\ i = 0 /\ r = 0
        /\ carry = IF op = "neg" THEN 1 ELSE 0
        /\ tree = [k \in 1..w |-> Xor(Not(Bit(x, k - 1)), Bit(y, k - 1))]

a == Bit(x, i)
b == Bit(y, i)
Add == /\ r' = r + P2(i) * Xor(Xor(carry, a), b)
       /\ carry' = Xor(And(Xor(carry, a), Xor(carry, b)), carry)
Sub == /\ r' = r + P2(i) * Xor(a, Xor(carry, b))
       /\ carry' = Xor(carry, And(Xor(a, b), Xor(carry, b)))
Neg == /\ r' = r + P2(i) * Xor(Not(a), carry)
       /\ carry' = And(Not(Xor(Not(a), carry)), carry)
Lt == /\ UNCHANGED r
      /\ carry' = Xor(And(Xor(carry, a), Xor(carry, b)), IF op = "slt" /\ i = w - 1 THEN a ELSE b)
Serial == /\ op # "eq" /\ i < w /\ i' = i + 1 /\ UNCHANGED <<op, w, x, y, tree>>
          /\ CASE op = "add" -> Add [] op = "sub" -> Sub [] op = "neg" -> Neg [] OTHER -> Lt
\* halve the number of partial results: the k-th is ANDed with the k-th from the end
Halve == /\ op = "eq" /\ Len(tree) > 1 /\ UNCHANGED <<op, w, x, y, i, carry, r>>
         /\ LET n == Len(tree)
            IN tree' = [k \in 1..(n - n \div 2) |-> IF k <= n \div 2 THEN And(tree[k], tree[n - k + 1]) ELSE tree[k]]
Next == Serial \/ Halve
Spec == Init /\ [][Next]_vars

Low(v) == v % P2(i)
Prefix == /\ op = "add" => r = (Low(x) + Low(y)) % P2(i) /\ carry = (Low(x) + Low(y)) \div P2(i)
          /\ op = "sub" => r = (Low(x) - Low(y)) % P2(i) /\ (carry = 1 <=> Low(x) < Low(y))
          /\ op = "neg" => r = (0 - Low(x)) % P2(i)
          /\ op = "ult" => (carry = 1 <=> Low(x) < Low(y))
          /\ op = "slt" /\ i = w => (carry = 1 <=> Signed(x) < Signed(y))
          /\ op = "eq" /\ Len(tree) = 1 => (tree[1] = 1 <=> x = y)
=============================================================================
