------------------------------ MODULE PointArray ------------------------------
(***************************************************************************)
(* How the write-only ORAM turns a secret-shared index into two arrays     *)
(* which differ at that index only (SinglePointArrayGenerator).            *)
(*                                                                         *)
(* Keys are sums of atoms, written as the set of atoms; expanding a key    *)
(* gives two new atoms, the same for the same key.  The last bit of every  *)
(* atom is arbitrary.  In each round the parties learn the joined sum of   *)
(* one side (Delta, the side the index does not go to) and two correction  *)
(* bits, and correct the children of the nodes whose indicator is set.     *)
(* Columns beyond the wanted length are cut off after every round.         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANT Depth
VARIABLES lvl, alpha, len, arr
vars == <<lvl, alpha, len, arr>>
Parties == {0, 1}

SymDiff(a, b) == (a \ b) \cup (b \ a)
RECURSIVE Sum(_)
Sum(ks) == IF ks = << >> THEN {} ELSE SymDiff(Head(ks), Sum(Tail(ks)))
Ceil(a, b) == (a + b - 1) \div b
Bit(x, k) == (x \div (2 ^ k)) % 2

Init == /\ lvl = 0
        /\ len \in 1..(2 ^ Depth) /\ alpha \in 0..(len - 1)
        /\ arr = [p \in Parties |-> <<[k |-> {<<"root", p>>}, t |-> p]>>]

Child(key, s) == {<<key, s>>}
Atoms == UNION {{<<arr[p][j].k, s>> : s \in {0, 1}, j \in 1..Len(arr[p])} : p \in Parties}
Expand ==
    /\ lvl < Depth
    /\ \E lsb \in [Atoms -> {0, 1}] :
         LET n == Len(arr[0])
             a == Bit(alpha, Depth - 1 - lvl)
             Lsb(k) == Cardinality({x \in k : lsb[x] = 1}) % 2
             d(s) == SymDiff(Sum([j \in 1..n |-> Child(arr[0][j].k, s)]), Sum([j \in 1..n |-> Child(arr[1][j].k, s)]))
             delta == IF a = 1 THEN d(0) ELSE d(1)
             fix(s) == IF s = 0 THEN (Lsb(d(0)) + 1 - a) % 2 ELSE (Lsb(d(1)) + a) % 2
             node(p, i) == LET j == i \div 2 + 1
                               s == i % 2
                               c == Child(arr[p][j].k, s)
                           IN  IF arr[p][j].t = 1 THEN [k |-> SymDiff(c, delta), t |-> (Lsb(c) + fix(s)) % 2]
                               ELSE [k |-> c, t |-> Lsb(c)]
             keep == Ceil(len, 2 ^ (Depth - 1 - lvl))
         IN  arr' = [p \in Parties |-> [i \in 1..(IF keep < 2 * n THEN keep ELSE 2 * n) |-> node(p, i - 1)]]
    /\ lvl' = lvl + 1
    /\ UNCHANGED <<alpha, len>>
Next == Expand
Spec == Init /\ [][Next]_vars

Prefix == alpha \div (2 ^ (Depth - lvl))
\* the index is never cut off, and only its prefix makes a difference
OnePoint == /\ Len(arr[0]) = Len(arr[1]) /\ Prefix < Len(arr[0])
            /\ \A i \in 0..(Len(arr[0]) - 1) :
                 LET x == arr[0][i + 1] y == arr[1][i + 1]
                 IN  IF i = Prefix THEN x.t # y.t /\ x.k # y.k ELSE x = y
Length == lvl = Depth => Len(arr[0]) = len
=============================================================================
