------------------------------- MODULE AesTrace -------------------------------
(***************************************************************************)
(* Decides recorded uses of the AES circuit, its counter mode and the MACs *)
(* against FIPS 197, NIST SP 800-38B (CMAC) and RFC 5297 (S2V without      *)
(* associated data).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Aes, Bitwise, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l
vars == <<l>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1
Begin == Is("begin")

Lane(x) == LET ks == Schedule(x.key)
               n == Len(x.in)
           IN  /\ x.ks = (IF E.what = "dec" THEN InvSchedule(x.key) ELSE ks)
               /\ Len(x.out) = n
               /\ \A b \in 1..n :
                    CASE E.what = "enc" -> x.out[b] = EncryptWith(ks, x.in[b])
                      [] E.what = "dec" -> x.in[b] = EncryptWith(ks, x.out[b])
                      [] OTHER -> x.out[b] = XorB(x.in[b], EncryptWith(ks, x.mask[b]))
Circuit == Is("circuit") /\ \A i \in 1..Len(E.lanes) : Lane(E.lanes[i])
Sizes == /\ Is("sizes")
         /\ E.ok = (IF E.n % 128 = 0 /\ E.k = 1408 /\ (E.what \in {"ctrEnc", "ctrDec"} => E.m = E.n) THEN 1 ELSE 0)
         /\ E.ok = 1 => E.len = E.n

\* ---- CMAC: the first byte is the most significant one
Dbl(b) == LET c(i) == IF i < 16 THEN b[i + 1] \div 128 ELSE 0
              v(i) == ((b[i] * 2) % 256) + c(i)
          IN  <<v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8), v(9), v(10), v(11), v(12), v(13), v(14), v(15),
                v(16) ^^ (IF b[1] >= 128 THEN 135 ELSE 0)>>
Pad(m) == m \o <<128>> \o [i \in 1..(15 - Len(m)) |-> 0]
Block(m, i) == SubSeq(m, 16 * (i - 1) + 1, 16 * i)
Chain(ks, m, n) == FoldLeft(LAMBDA acc, i : EncryptWith(ks, XorB(acc, Block(m, i))), Zero, [i \in 1..n |-> i])
Cmac(key, m) ==
  LET ks == Schedule(key)
      k1 == Dbl(EncryptWith(ks, Zero))
      full == Len(m) > 0 /\ Len(m) % 16 = 0
      n == IF full THEN (Len(m) \div 16) - 1 ELSE Len(m) \div 16
      rest == SubSeq(m, (16 * n) + 1, Len(m))
      last == IF full THEN XorB(rest, k1) ELSE XorB(Pad(rest), Dbl(k1))
  IN  EncryptWith(ks, XorB(Chain(ks, m, n), last))
S2V(key, m) ==
  LET d == Cmac(key, Zero)
      n == Len(m)
  IN  Cmac(key, IF n >= 16 THEN SubSeq(m, 1, n - 16) \o XorB(SubSeq(m, n - 15, n), d) ELSE XorB(Dbl(d), Pad(m)))
Mac == Is("mac") /\ E.out = (IF E.s2v = 1 THEN S2V(E.key, E.text) ELSE Cmac(E.key, E.text))

\* the examples of RFC 4493
Rfc == <<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>
ASSUME Cmac(Rfc, << >>) = <<187, 29, 105, 41, 233, 89, 55, 40, 127, 163, 125, 18, 155, 117, 103, 70>>
ASSUME Cmac(Rfc, <<107, 193, 190, 226, 46, 64, 159, 150, 233, 61, 126, 17, 115, 147, 23, 42>>)
         = <<7, 10, 22, 180, 107, 77, 65, 68, 247, 155, 221, 157, 208, 74, 40, 124>>

Next == Begin \/ Circuit \/ Sizes \/ Mac
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
