---------------------------- MODULE ContainerTrace ----------------------------
(***************************************************************************)
(* Decides recorded uses of the typed containers of the MPC library.       *)
(*                                                                         *)
(* A column is a sequence of items; what an item is does not matter to     *)
(* moving, swapping, joining, splitting and opening columns, so items stay *)
(* opaque there.  Numbers are 8-byte words (least significant byte first), *)
(* sign-extended; an aggregation value is a pair <<count, value>>.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise, Words

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, col, bit
vars == <<l, col, bit>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
Cols == 0..3
Bits == 0..1

Min(a, b) == IF a < b THEN a ELSE b
\* the bits (lowest first) as a number of w bits
Num(bits, w, sg) == LET padded == [i \in 1..w |-> IF i <= Len(bits) THEN bits[i] ELSE 0]
                    IN  WFromBits(padded, 8, IF sg = 1 THEN padded[w] ELSE 0)
Canon(x, w, sg) == IF w = 64 THEN x ELSE Num(WToBits(x, w), w, sg)
U32(x) == Canon(x, 32, 0)
IsAgg == E.kind = "agg"
BitsOf(v, w) == IF IsAgg THEN WToBits(v[1], 32) \o WToBits(v[2], 32) ELSE WToBits(v, w)
FromBits(bits, w, sg) == IF IsAgg THEN <<Num(SubSeq(bits, 1, 32), 32, 0), Num(SubSeq(bits, 33, 64), 32, 0)>>
                         ELSE Num(bits, w, sg)

Init == l = 1 /\ col = [s \in Cols |-> << >>] /\ bit = [s \in Bits |-> << >>]
Begin == Is("begin") /\ col' = [s \in Cols |-> << >>] /\ bit' = [s \in Bits |-> << >>]
End == Is("end") /\ UNCHANGED <<col, bit>>
Same == UNCHANGED <<col, bit>>

\* ---- plaintext ----------------------------------------------------------------------------
ToBits == Is("tobits") /\ Same /\ E.ok = 1 /\ E.out = BitsOf(E.val, E.w)
\* missing high bits are zero; too many bits are refused; an aggregation value needs all of them
BitsFrom == /\ Is("frombits") /\ Same
            /\ IF Len(E.bits) > E.w \/ (IsAgg /\ Len(E.bits) # 64) THEN E.ok = 0
               ELSE E.ok = 1 /\ E.out = FromBits(E.bits, E.w, E.sg)
\* a value made from a key takes the key's low bits
Pad8(b) == b \o <<0, 0, 0, 0>>
Gen == /\ Is("gen") /\ Same /\ E.ok = 1
       /\ E.out = IF IsAgg THEN <<Pad8(SubSeq(E.key, 5, 8)), Pad8(SubSeq(E.key, 1, 4))>>
                  ELSE Canon(SubSeq(E.key, 1, 8), E.w, E.sg)
BlockBit(b, k) == (b[(k \div 8) + 1] \div Pow2[k % 8]) % 2
Planes == /\ Is("planes") /\ Same /\ E.ok = 1
          /\ Len(E.out) = 128
          /\ \A k \in 1..128 : E.out[k] = [i \in 1..Len(E.vals) |-> BlockBit(E.vals[i], k - 1)]
Blocks == /\ Is("blocks") /\ Same
          /\ IF Len(E.planes) # 128 THEN E.ok = 0
             ELSE /\ E.ok = 1 /\ Len(E.out) = E.n
                  /\ \A k \in 1..128 : E.planes[k] = [i \in 1..E.n |-> BlockBit(E.out[i], k - 1)]
Arith == /\ Is("arith") /\ Same /\ E.ok = 1
         /\ E.out = Canon(CASE E.op = "add" -> WAdd(E.a, E.b)
                            [] E.op = "sub" -> WSub(E.a, E.b)
                            [] E.op = "neg" -> WNeg(E.a), E.w, E.sg)
Make == /\ Is("make") /\ Same
        /\ IF Canon(E.val, E.w, E.sg) = E.val THEN E.ok = 1 /\ E.out = E.val ELSE E.ok = 0
Both(f(_, _), x, y) == <<U32(f(x[1], y[1])), U32(f(x[2], y[2]))>>
AggOps == /\ Is("agg") /\ Same
          /\ E.add = Both(WAdd, E.a, E.b) /\ E.inc = E.add
          /\ E.sub = Both(WSub, E.a, E.b)
          /\ E.neg = <<U32(WNeg(E.a[1])), U32(WNeg(E.a[2]))>>
          /\ (E.same = 1) <=> (E.a = E.b)
          /\ E.self = 1
          /\ E.one = <<IF E.v = WZero(8) THEN WZero(8) ELSE WOne(8), E.v>>

\* ---- secret columns -----------------------------------------------------------------------
In == Is("in") /\ col' = [col EXCEPT ![E.d] = E.vals] /\ UNCHANGED bit
InBits == Is("bits") /\ bit' = [bit EXCEPT ![E.d] = E.vals] /\ UNCHANGED col
\* item i is spelled by the joined shares of its bits
RECURSIVE Joined(_, _, _, _)
Joined(sh, k, i, p) == IF p = 0 THEN 0 ELSE (sh[p][k][i] + Joined(sh, k, i, p - 1)) % 2
Recover == /\ Is("recover")
           /\ LET B(i) == [k \in 1..E.w |-> Joined(E.shares, k, i, Len(E.shares))]
                  V(i) == IF IsAgg THEN <<Num(SubSeq(B(i), 1, 32), 32, 0), Num(SubSeq(B(i), 33, 64), 32, 0)>>
                          ELSE Num(B(i), E.w, E.sg)
              IN  col' = [col EXCEPT ![E.d] = [i \in 1..E.n |-> V(i)]]
           /\ UNCHANGED bit
Swap == /\ Is("swap")
        /\ LET x == col[E.a]
               y == col[E.b]
               c == bit[E.i]
           IN  col' = [col EXCEPT ![E.d] = [i \in 1..Len(x) |-> IF c[i] = 1 THEN y[i] ELSE x[i]],
                                  ![E.d2] = [i \in 1..Len(x) |-> IF c[i] = 1 THEN x[i] ELSE y[i]]]
        /\ UNCHANGED bit
\* aggregation values: differences item by item, component by component; one of two by a secret bit
Minus == /\ Is("minus") /\ UNCHANGED bit
         /\ col' = [col EXCEPT ![E.d] = [i \in 1..Len(col[E.a]) |-> Both(WSub, col[E.a][i], col[E.b][i])]]
Choose == /\ Is("choose") /\ UNCHANGED bit
          /\ col' = [col EXCEPT ![E.d] = [i \in 1..Len(col[E.a]) |-> IF bit[E.i][i] = 1 THEN col[E.b][i] ELSE col[E.a][i]]]
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN << >> ELSE col[ss[i]] \o Cat(ss, i + 1)
Batch == Is("batch") /\ col' = [col EXCEPT ![E.d] = col[E.a] \o Cat(E.bs, 1)] /\ UNCHANGED bit
RECURSIVE Before(_, _)
Before(cut, i) == IF i = 1 THEN 0 ELSE cut[i - 1] + Before(cut, i - 1)
Unbatch == /\ Is("unbatch")
           /\ Before(E.cut, Len(E.cut) + 1) = Len(col[E.a])
           /\ LET part(i) == SubSeq(col[E.a], Before(E.cut, i) + 1, Before(E.cut, i + 1))
              IN  col' = [s \in Cols |-> IF \E i \in 1..Len(E.ds) : E.ds[i] = s
                                         THEN part(CHOOSE i \in 1..Len(E.ds) : E.ds[i] = s) ELSE col[s]]
           /\ UNCHANGED bit
Open == Is("open") /\ E.out = col[E.a] /\ Same

\* ---- permutations and seeds ---------------------------------------------------------------
Orders == /\ Is("orders") /\ Same /\ E.draws = 1
          /\ LET S == {E.seen[i] : i \in 1..Len(E.seen)}
                 P == {f \in [1..E.n -> 0..(E.n - 1)] : \A i, j \in 1..E.n : f[i] = f[j] => i = j}
             IN  /\ Cardinality(S) = Len(E.seen)
                 /\ S = (IF E.n = 0 THEN {<< >>} ELSE {[i \in 1..E.n |-> f[i]] : f \in P})
                 /\ \A i \in 1..Len(E.count) : E.count[i] = E.count[1]
IsOrder(s, n) == Len(s) = n /\ {s[i] : i \in 1..n} = 0..(n - 1)
\* the same seed gives the same order; going on gives another one
Perm == /\ Is("perm") /\ Same
        /\ IsOrder(E.a, E.n) /\ E.b = E.a /\ IsOrder(E.c, E.n)
        /\ E.n > 30 => E.c # E.a
XorB(a, b) == [i \in 1..16 |-> a[i] ^^ b[i]]
\* commitment, the other share, opening; a changed commitment or opening is noticed by the peer
Seed == /\ Is("seed") /\ Same
        /\ Len(E.sent0) = 64 /\ Len(E.sent1) = 16 /\ E.ok0 = 1
        /\ E.order = <<0, 3, 2, 1, 0, 3>>
        /\ E.out[1] = XorB(SubSeq(E.sent0, 33, 48), E.sent1)
        /\ IF E.tamper = -1 THEN E.ok1 = 1 /\ E.out[2] = E.out[1] ELSE E.ok1 = 0

Next == \/ Begin \/ End \/ ToBits \/ BitsFrom \/ Gen \/ Planes \/ Blocks \/ Arith \/ Make \/ AggOps
        \/ In \/ InBits \/ Recover \/ Swap \/ Minus \/ Choose \/ Batch \/ Unbatch \/ Open
        \/ Orders \/ Perm \/ Seed
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
