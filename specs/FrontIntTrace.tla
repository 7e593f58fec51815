--------------------------- MODULE FrontIntTrace ---------------------------
(***************************************************************************)
(* Decides recorded programs over the frontend integers of one width and   *)
(* signedness.  A variable holds a sequence of integers (one per element   *)
(* of a batch), each a 64-bit word holding the value in two's complement,  *)
(* or a sequence of bits; the operators are those of machine integers of   *)
(* the width: everything modulo 2^w, comparisons by signedness.            *)
(***************************************************************************)
EXTENDS Circuit, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, mem
vars == <<l, cfg, mem>>

E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Slots == (0..7) \cup (10..17) \cup (20..22) \cup (30..32)

\* the value of a bit pattern of w bits, as a 64-bit word
Ext(x, w, sg) == LET b == WToBits(x, w) IN WFromBits(b, 8, IF sg = 1 THEN b[w] ELSE 0)
Canon(x) == IF cfg.w = 64 THEN x ELSE Ext(x, cfg.w, cfg.sg)
InRange(x) == Canon(x) = x

Flip(x) == [i \in 1..8 |-> IF i = 8 THEN (x[8] + 128) % 256 ELSE x[i]]
Less(x, y) == IF cfg.sg = 1 THEN WLess(Flip(x), Flip(y)) ELSE WLess(x, y)
B(p) == IF p THEN 1 ELSE 0

Apply(op, x, y) == CASE op = "add" -> Canon(WAdd(x, y))
                     [] op = "sub" -> Canon(WSub(x, y))
                     [] op = "lt" -> B(Less(x, y))
                     [] op = "le" -> B(~Less(y, x))
                     [] op = "gt" -> B(Less(y, x))
                     [] op = "ge" -> B(~Less(x, y))
                     [] op = "eq" -> B(x = y)
                     [] op = "min" -> IF Less(y, x) THEN y ELSE x
                     [] op = "max" -> IF Less(x, y) THEN y ELSE x
Neg(x) == Canon(WNeg(x))
Abs(x) == IF Less(x, WZero(8)) THEN Neg(x) ELSE x
SetBit(x, k, b) == LET bits == WToBits(x, cfg.w)
                       nb == [bits EXCEPT ![k + 1] = b]
                   IN WFromBits(nb, 8, IF cfg.sg = 1 THEN nb[cfg.w] ELSE 0)

RECURSIVE XorWords(_, _)
XorWords(ws, i) == IF i > Len(ws) THEN WZero(8) ELSE WXor(ws[i], XorWords(ws, i + 1))
JoinedInts(sh) == [k \in 1..Len(sh[1]) |-> Canon(XorWords([p \in 1..Len(sh) |-> sh[p][k]], 1))]
JoinedBits(sh) == [k \in 1..Len(sh[1]) |-> XorSeq([p \in 1..Len(sh) |-> sh[p][k]], 1)]
Joined(s, sh) == IF cfg.n = 1 THEN sh[1] ELSE IF s < 20 THEN JoinedInts(sh) ELSE JoinedBits(sh)
Zeros(s) == [k \in 1..Len(mem[s]) |-> IF s < 20 THEN WZero(8) ELSE 0]

Init == l = 1 /\ cfg = [n |-> 0, sched |-> "-", w |-> 1, sg |-> 0, batch |-> 0, ev |-> "begin"] /\ mem = [s \in Slots |-> << >>]
Begin == Is("begin") /\ cfg' = E /\ mem' = [s \in Slots |-> << >>]

Store(d, v) == mem' = [mem EXCEPT ![d] = v]
In == Is("in") /\ Store(E.d, IF E.form = "share" THEN Joined(E.d, E.shares) ELSE E.vals)
BadIn == /\ Is("badin") /\ UNCHANGED mem
         /\ \E i \in 1..Len(E.vals) : ~InRange(E.vals[i])
         /\ \A p \in 1..cfg.n : E.out[p] = 1
Bin == /\ Is("bin") /\ Len(mem[E.a]) = Len(mem[E.b])
       /\ Store(E.d, [k \in 1..Len(mem[E.a]) |-> Apply(E.op, mem[E.a][k], mem[E.b][k])])
Una == /\ (Is("neg") \/ Is("abs"))
       /\ Store(E.d, [k \in 1..Len(mem[E.a]) |-> IF E.ev = "neg" THEN Neg(mem[E.a][k]) ELSE Abs(mem[E.a][k])])
Mux == /\ Is("mux")
       /\ Store(E.d, [k \in 1..Len(mem[E.a]) |-> IF mem[E.c][k] = 1 THEN mem[E.b][k] ELSE mem[E.a][k]])
\* to another width and back
Cast == /\ Is("cast")
        /\ LET y == [k \in 1..Len(mem[E.a]) |-> IF E.w2 = 64 THEN mem[E.a][k] ELSE Ext(mem[E.a][k], E.w2, cfg.sg)]
           IN /\ Store(E.d, [k \in 1..Len(y) |-> Canon(y[k])])
              /\ \A p \in 1..cfg.n :
                    IF E.a >= 10 \/ p = E.party + 1 THEN E.out[p] = y
                    ELSE cfg.sched \in {"eager", "lazy"} => E.out[p] = Zeros(E.a)
BitGet == Is("bitget") /\ Store(E.d, [k \in 1..Len(mem[E.a]) |-> WBit(mem[E.a][k], E.idx)])
BitSet == Is("bitset") /\ Store(E.d, [k \in 1..Len(mem[E.d]) |-> SetBit(mem[E.d][k], E.idx, mem[E.a][k])])
BadIdx == Is("badidx") /\ UNCHANGED mem /\ E.idx >= cfg.w /\ \A p \in 1..cfg.n : E.out[p] = 1
Copy == Is("copy") /\ Store(E.d, mem[E.a])
Move == Is("move") /\ mem' = [mem EXCEPT ![E.d] = mem[E.a], ![E.a] = << >>]
Swap == Is("swap") /\ mem' = [mem EXCEPT ![E.d] = mem[E.a], ![E.a] = mem[E.d]]
Drop == Is("drop") /\ Store(E.d, << >>)
Reshare == Is("reshare") /\ Store(E.d, mem[E.a])
BatchUp == Is("batchup") /\ Store(E.d, mem[E.a] \o Concat([j \in 1..Len(E.bs) |-> mem[E.bs[j]]], 1))
Unbatch == /\ Is("unbatch")
           /\ mem' = [s \in Slots |-> IF \E j \in 1..Len(E.ds) : E.ds[j] = s
                                      THEN Piece(mem[E.a], E.cut, CHOOSE j \in 1..Len(E.ds) : E.ds[j] = s)
                                      ELSE mem[s]]
BSize == Is("bsize") /\ UNCHANGED mem /\ \A p \in 1..cfg.n : E.out[p] = Len(mem[E.a])
Get == Is("get") /\ UNCHANGED mem /\ \A p \in 1..cfg.n : E.out[p] = mem[E.a]
Open == /\ Is("open") /\ UNCHANGED mem
        /\ \A p \in 1..cfg.n : IF p = E.party + 1 THEN E.out[p] = mem[E.a]
                               ELSE cfg.sched \in {"eager", "lazy"} => E.out[p] = Zeros(E.a)
\* a party's share of an integer: as words, and as the bits of those words
ShareBits == /\ Is("share") /\ UNCHANGED mem /\ E.a >= 20
             /\ \A p \in 1..cfg.n : Len(E.out[p]) = Len(mem[E.a])
             /\ Joined(E.a, E.out) = mem[E.a]
ShareInt == /\ Is("share") /\ UNCHANGED mem /\ E.a < 20
            /\ \A p \in 1..cfg.n : /\ Len(E.out[p][1]) = Len(mem[E.a])
                                   /\ Len(E.out[p][2]) = Len(mem[E.a])
                                   /\ \A k \in 1..Len(mem[E.a]) : Canon(E.out[p][2][k]) = Canon(E.out[p][1][k])
            /\ Joined(E.a, [p \in 1..cfg.n |-> E.out[p][1]]) = mem[E.a]
Share == ShareBits \/ ShareInt
Live == Is("live") /\ UNCHANGED mem /\ \A p \in 1..cfg.n : E.out[p] = 0
End == Is("end") /\ UNCHANGED mem

Step == In \/ BadIn \/ Bin \/ Una \/ Mux \/ Cast \/ BitGet \/ BitSet \/ BadIdx \/ Copy \/ Move \/ Swap \/ Drop
        \/ Reshare \/ BatchUp \/ Unbatch \/ BSize \/ Get \/ Open \/ Share \/ Live \/ End
Next == Begin \/ (Step /\ UNCHANGED cfg)
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter) \o ": " \o ToString(Trace[TLCGet("stats").diameter])) /\ FALSE
=============================================================================
