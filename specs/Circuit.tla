------------------------------ MODULE Circuit ------------------------------
(***************************************************************************)
(* Plaintext meaning of the gates a scheduler offers.  A wire carries a    *)
(* sequence of elements (length one for a plain wire, the batch size for a *)
(* batch wire); an element is a bit ("b") or a 64-bit word ("a").          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Words

BXor(x, y) == (x + y) % 2
BAnd(x, y) == x * y
BNot(x) == 1 - x

Map1(F(_), x) == [i \in 1..Len(x) |-> F(x[i])]
Map2(F(_, _), x, y) == [i \in 1..Len(x) |-> F(x[i], y[i])]

GateValue(op, x, y) ==
    CASE op = "and" -> Map2(BAnd, x, y)
      [] op = "xor" -> Map2(BXor, x, y)
      [] op = "not" -> Map1(BNot, x)
      [] op = "plus" -> Map2(WAdd, x, y)
      [] op = "mult" -> Map2(WMul, x, y)
      [] op = "neg" -> Map1(WNeg, x)

\* does the gate need messages between the parties? (priv = all operands are secret)
NonFreeGate(op, priv) == op \in {"and", "mult"} /\ priv

RECURSIVE ConcatFrom(_, _, _)
ConcatFrom(ss, lo, hi) == IF lo > hi THEN << >>
                          ELSE IF lo = hi THEN ss[lo]
                          ELSE LET mid == (lo + hi) \div 2 IN ConcatFrom(ss, lo, mid) \o ConcatFrom(ss, mid + 1, hi)
Concat(ss, i) == ConcatFrom(ss, i, Len(ss))

RECURSIVE SumInts(_, _)
SumInts(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumInts(s, i + 1)

\* the k-th piece of v when cut by the strategy cut
Piece(v, cut, k) == SubSeq(v, SumInts(SubSeq(cut, 1, k - 1), 1) + 1, SumInts(SubSeq(cut, 1, k), 1))
=============================================================================
