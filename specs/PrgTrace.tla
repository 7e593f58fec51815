------------------------------ MODULE PrgTrace ------------------------------
(***************************************************************************)
(* Decides recorded uses of the AES primitives and the generator.  The     *)
(* stream of a generator is AES-128 under the seed of the block numbers    *)
(* 0, 1, 2, ... (64-bit, little endian, upper half zero); every request    *)
(* takes the bytes that follow those of the request before it.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Aes, Bitwise

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, gens        \* id -> [ks, pos, buffered]
vars == <<l, gens>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Block(ks, i) == EncryptWith(ks, <<i % 256, (i \div 256) % 256, (i \div 65536) % 256, i \div 16777216,
                                  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)
G == gens[E.g]
\* the claim "out are the stream's bytes from `pos`", block by block
IsStream(ks, pos, out) ==
    LET n == Len(out)
        b0 == pos \div 16
        b1 == (pos + n - 1) \div 16
    IN  n = 0 \/ \A b \in b0..b1 :
            LET blk == Block(ks, b)
            IN  \A i \in 1..16 : LET o == 16 * b + i - pos IN (1 <= o /\ o <= n) => out[o] = blk[i]
Move(n) == gens' = [gens EXCEPT ![E.g].pos = @ + n]
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Pack(bits, i) == LET b(k) == IF 8 * i + k <= Len(bits) THEN bits[8 * i + k] * P2[k] ELSE 0
                 IN  b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7) + b(8)
\* bits of the last byte beyond the request are dropped, so compare bit by bit there
IsBits(ks, pos, bits) ==
    LET n == Len(bits)
        full == n \div 8
    IN  /\ IsStream(ks, pos, [i \in 1..full |-> Pack(bits, i - 1)])
        /\ n % 8 = 0 \/ LET p == pos + full
                            byte == Block(ks, p \div 16)[(p % 16) + 1]
                        IN  byte % P2[(n % 8) + 1] = Pack(bits, full)

Init == l = 1 /\ gens = << >>
Begin == Is("begin") /\ gens' = << >>
New == /\ Is("prg") /\ E.g = Len(gens)
       /\ gens' = Append(gens, [ks |-> Schedule(E.seed), pos |-> 0, buffered |-> E.buffered])
Gx == gens[E.g + 1]
MoveX(n) == gens' = [gens EXCEPT ![E.g + 1].pos = @ + n]
Bytes == /\ Is("bytes") /\ Gx.buffered = 1 /\ Len(E.out) = E.n /\ IsStream(Gx.ks, Gx.pos, E.out) /\ MoveX(E.n)
Bits == /\ Is("bits") /\ Gx.buffered = 1 /\ Len(E.out) = E.n /\ IsBits(Gx.ks, Gx.pos, E.out) /\ MoveX((E.n + 7) \div 8)
\* words as their bytes, most significant first, so that they concatenate to the stream
Words64 == /\ Is("u64") /\ Gx.buffered = 1 /\ Len(E.out) = 8 * E.n /\ IsStream(Gx.ks, Gx.pos, E.out) /\ MoveX(8 * E.n)
InPlace == /\ Is("inplace") /\ Gx.buffered = 0 /\ Len(E.out) = 16 * E.n /\ IsStream(Gx.ks, Gx.pos, E.out) /\ MoveX(16 * E.n)
BitsInPlace == /\ Is("bitsinplace") /\ Gx.buffered = 0 /\ Len(E.out) = E.n
               /\ IsBits(Gx.ks, Gx.pos, E.out) /\ MoveX(16 * ((E.n + 127) \div 128))
Long == /\ Is("long") /\ Gx.buffered = E.bufd
        /\ \A k \in 1..Len(E.at) : IsStream(Gx.ks, Gx.pos + E.at[k].from, E.at[k].out)
        /\ MoveX(E.n)
Refused == Is("refused") /\ Gx.buffered = 0 /\ UNCHANGED gens

\* ---- the primitives
AesEv == /\ Is("aes")
         /\ LET ks == Schedule(E.key)
            IN  /\ Len(E.out) = Len(E.in)
                /\ \A i \in 1..Len(E.in) :
                     LET c == EncryptWith(ks, E.in[i]) IN E.out[i] = (IF E.hash = 1 THEN XorB(c, E.in[i]) ELSE c)
         /\ UNCHANGED gens
KeyExp == /\ Is("keyexp") /\ E.enc = Schedule(E.key) /\ E.dec = InvSchedule(E.key) /\ UNCHANGED gens
\* key i of the input controls keys 2i and 2i+1 of the output
Lo(i) == <<i % 256, i \div 256, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Hi(i) == <<0, 0, 0, 0, 0, 0, 0, 0, i % 256, i \div 256, 0, 0, 0, 0, 0, 0>>
Expand == /\ Is("expand") /\ Len(E.out) = 2 * Len(E.in)
          /\ LET k0 == Schedule(Lo(2 * E.index))
                 k1 == Schedule(Hi(2 * E.index + 1))
             IN  \A i \in 1..Len(E.in) : /\ E.out[2 * i - 1] = XorB(EncryptWith(k0, E.in[i]), E.in[i])
                                         /\ E.out[2 * i] = XorB(EncryptWith(k1, E.in[i]), E.in[i])
          /\ UNCHANGED gens
BitOf(v, i) == (v[(i \div 8) + 1] \div P2[(i % 8) + 1]) % 2
Shift == /\ Is("shift") /\ \A i \in 0..127 : BitOf(E.out, i) = (IF i < E.by THEN 0 ELSE BitOf(E.in, i - E.by))
         /\ UNCHANGED gens
Lsb == /\ Is("lsb")
       /\ E.lsb = BitOf(E.in, 0) /\ E.msb = BitOf(E.in, 127)
       /\ SubSeq(E.zero, 2, 16) = SubSeq(E.in, 2, 16) /\ E.zero[1] = 2 * (E.in[1] \div 2)
       /\ SubSeq(E.one, 2, 16) = SubSeq(E.in, 2, 16) /\ E.one[1] = 2 * (E.in[1] \div 2) + 1
       /\ E.back = E.in
       /\ E.low64 = SubSeq(E.in, 1, 8)
       /\ UNCHANGED gens
Extract == /\ Is("extract")
           /\ IF E.n > 128 THEN E.ok = 0
              ELSE E.ok = 1 /\ Len(E.out) = E.n /\ \A i \in 1..E.n : E.out[i] = BitOf(E.in, i - 1)
           /\ UNCHANGED gens
\* the residue of a little-endian number, from its most significant byte down
Mod[v \in Seq(0..255), m \in Nat] == IF v = << >> THEN 0 ELSE (v[1] + 256 * Mod[Tail(v), m]) % m
ModEv == /\ Is("mod") /\ E.out = Mod[E.in, E.m] /\ UNCHANGED gens
Maskb == /\ Is("maskbit")       \* what one masks with the key of his bit the other unmasks by choice
         /\ E.got = (IF E.choice = 1 THEN E.v1 ELSE E.v0)
         /\ UNCHANGED gens

Next == Begin \/ New \/ Bytes \/ Bits \/ Words64 \/ InPlace \/ BitsInPlace \/ Long \/ Refused \/ AesEv \/ KeyExp \/ Expand
        \/ Shift \/ Lsb \/ Extract \/ ModEv \/ Maskb
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter) \o ": " \o ToString(Trace[TLCGet("stats").diameter])) /\ FALSE
=============================================================================
