------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Unsigned words modulo 256^n as sequences of n bytes, least significant  *)
(* byte first.  TLC's integers have 32 bits, so 64-bit values of the code  *)
(* are carried in this form.                                               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise

IsWord(w, n) == /\ Len(w) = n
                /\ \A i \in 1..n : w[i] \in 0..255

WZero(n) == [i \in 1..n |-> 0]
WOne(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]

\* carry into byte i when adding a, b and c0
RECURSIVE WCarry(_, _, _, _)
WCarry(a, b, c0, i) == IF i = 1 THEN c0
                       ELSE (a[i-1] + b[i-1] + WCarry(a, b, c0, i-1)) \div 256

RECURSIVE WAddAcc(_, _, _, _, _)
WAddAcc(a, b, c, i, acc) ==
    IF i > Len(a) THEN acc
    ELSE LET s == a[i] + b[i] + c
         IN WAddAcc(a, b, s \div 256, i + 1, Append(acc, s % 256))

WAdd(a, b) == WAddAcc(a, b, 0, 1, << >>)
WNot(a) == [i \in 1..Len(a) |-> 255 - a[i]]
WNeg(a) == WAddAcc(WNot(a), WZero(Len(a)), 1, 1, << >>)
WSub(a, b) == WAddAcc(a, WNot(b), 1, 1, << >>)

WXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
WAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
WOr(a, b) == [i \in 1..Len(a) |-> a[i] | b[i]]

\* sum over j of a[j] * b[k+1-j]
RECURSIVE WConv(_, _, _, _)
WConv(a, b, k, j) == IF j > k THEN 0 ELSE a[j] * b[k + 1 - j] + WConv(a, b, k, j + 1)

RECURSIVE WMulAcc(_, _, _, _, _)
WMulAcc(a, b, c, k, acc) ==
    IF k > Len(a) THEN acc
    ELSE LET s == WConv(a, b, k, 1) + c
         IN WMulAcc(a, b, s \div 256, k + 1, Append(acc, s % 256))

WMul(a, b) == WMulAcc(a, b, 0, 1, << >>)

\* unsigned comparison
RECURSIVE WLessFrom(_, _, _)
WLessFrom(a, b, i) == IF i = 0 THEN FALSE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i]
                      ELSE WLessFrom(a, b, i - 1)
WLess(a, b) == WLessFrom(a, b, Len(a))

\* bit k (0 = least significant)
Pow2 == [i \in 0..7 |-> CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8
                          [] i = 4 -> 16 [] i = 5 -> 32 [] i = 6 -> 64 [] i = 7 -> 128]
WBit(w, k) == (w[(k \div 8) + 1] \div Pow2[k % 8]) % 2

RECURSIVE BitsVal(_, _)
BitsVal(bits, i) == IF i > Len(bits) THEN 0 ELSE bits[i] + 2 * BitsVal(bits, i + 1)

\* word of n bytes from bits, least significant bit first, missing bits = fill
WFromBits(bits, n, fill) ==
    [i \in 1..n |-> BitsVal([j \in 1..8 |-> LET k == 8 * (i - 1) + j
                                            IN IF k <= Len(bits) THEN bits[k] ELSE fill], 1)]
WToBits(w, m) == [k \in 1..m |-> WBit(w, k - 1)]

RECURSIVE WSumSeq(_, _, _)
WSumSeq(ws, n, i) == IF i > Len(ws) THEN WZero(n) ELSE WAdd(ws[i], WSumSeq(ws, n, i + 1))

RECURSIVE XorSeq(_, _)
XorSeq(bs, i) == IF i > Len(bs) THEN 0 ELSE (bs[i] + XorSeq(bs, i + 1)) % 2
=============================================================================
