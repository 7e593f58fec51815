------------------------------ MODULE OramTrace ------------------------------
(***************************************************************************)
(* Decides recorded uses of oblivious RAMs: an array which batches of      *)
(* secret writes add to.  Numbers are 8-byte words, sign-extended; an      *)
(* aggregation value is a pair of 32-bit numbers.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise, Words

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, mem, written
vars == <<l, cfg, mem, written>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
Keep == UNCHANGED <<cfg, mem, written>>

Canon(x, w, sg) == IF w = 64 THEN x
                   ELSE IF w = 32 /\ sg = 0 THEN [i \in 1..8 |-> IF i <= 4 THEN x[i] ELSE 0]
                   ELSE LET b == WToBits(x, w) IN WFromBits(b, 8, IF sg = 1 THEN b[w] ELSE 0)
\* the group of the elements; every step is worked out once
Add1(x, y, w, sg) == CHOOSE r \in {Canon(z, w, sg) : z \in {WAdd(a, b) : a \in {x}, b \in {y}}} : TRUE
Sub1(x, y, w, sg) == CHOOSE r \in {Canon(z, w, sg) : z \in {WSub(a, b) : a \in {x}, b \in {y}}} : TRUE
Plus(x, y) == IF cfg.kind = "agg" THEN <<Add1(x[1], y[1], 32, 0), Add1(x[2], y[2], 32, 0)>> ELSE Add1(x, y, cfg.w, cfg.sg)
Minus(x, y) == IF cfg.kind = "agg" THEN <<Sub1(x[1], y[1], 32, 0), Sub1(x[2], y[2], 32, 0)>> ELSE Sub1(x, y, cfg.w, cfg.sg)
Nothing(kind) == IF kind = "agg" THEN <<WZero(8), WZero(8)>> ELSE WZero(8)
Zero == Nothing(cfg.kind)

Init == l = 1 /\ cfg = [w |-> 1] /\ mem = << >> /\ written = FALSE
Begin == Is("begin") /\ cfg' = E /\ mem' = [i \in 1..E.size |-> Nothing(E.kind)] /\ written' = FALSE

\* one write after the other, repeated places included
RECURSIVE Written(_, _, _, _)
Written(m, idx, vals, i) == IF i > Len(idx) THEN m
                            ELSE Written([m EXCEPT ![idx[i] + 1] = Plus(@, vals[i])], idx, vals, i + 1)
Add == Is("add") /\ mem' = Written(mem, E.idx, E.vals, 1) /\ written' = TRUE /\ UNCHANGED cfg
Read == Is("read") /\ E.out = mem[E.at + 1] /\ E.other = Zero /\ Keep
\* once anything is written every place of a secure memory is shared at random: a share of 32 bits or more shows
\* neither nothing nor the value
Hidden == written /\ "hidden" \in DOMAIN cfg /\ cfg.hidden >= 32
Share == /\ Is("share") /\ Plus(E.out[1], E.out[2]) = mem[E.at + 1] /\ Keep
         /\ Hidden => \A p \in {1, 2} : E.out[p] # Zero /\ (mem[E.at + 1] # Zero => E.out[p] # mem[E.at + 1])
                                       /\ (cfg.kind = "agg" => E.out[p][1] # E.out[p][2])
BadAdd == Is("badadd") /\ E.ok = <<0, 0>> /\ Keep
BadRead == Is("badread") /\ E.ok = <<0, 0>> /\ Keep
Traffic == Is("traffic") /\ E.a = <<E.b[2], E.b[1]>> /\ E.batch[1] = E.batch[2] /\ E.batch[1] > 0 /\ Keep

\* minuend minus the shared subtrahend where the first party's indicator is the larger one, else the negative
Diff == /\ Is("diff") /\ Keep
        /\ \A i \in 1..Len(E.sign) :
              \E s \in {Minus(E.sub0[i], E.sub1[i])} :
              \E want \in {IF E.sign[i] = 1 THEN Minus(E.minuend[i], s) ELSE Minus(s, E.minuend[i])} :
                  E.out[1][i] = want /\ E.out[2][i] = want
\* the two arrays differ at the secret place and nowhere else
Points == /\ Is("points") /\ Keep
          /\ \A b \in 1..Len(E.idx) : \A p \in {1, 2} : Len(E.ind[p][b]) = E.length /\ Len(E.keys[p][b]) = E.length
          /\ \A b \in 1..Len(E.idx) : \A i \in 1..E.length :
                /\ (E.ind[1][b][i] # E.ind[2][b][i]) <=> (i = E.idx[b] + 1)
                /\ (E.keys[1][b][i] # E.keys[2][b][i]) <=> (i = E.idx[b] + 1)
          /\ E.real = 1 => \A b \in 1..Len(E.idx) : Cardinality({E.keys[1][b][i] : i \in 1..E.length}) = E.length
Xor2(a, b) == [i \in 1..16 |-> a[i] ^^ b[i]]
\* the correction: the joined right key where the place is on the left, else the left one; and the bits which make
\* exactly one of the joined last bits 1, at the place
Delta == /\ Is("delta") /\ Keep /\ E.out[1] = E.out[2]
         /\ LET o == E.out[1]
            IN  \A i \in 1..Len(E.alpha[1]) :
                  LET a == (E.alpha[1][i] + E.alpha[2][i]) % 2
                      x == Xor2(E.d0[1][i], E.d0[2][i])
                      y == Xor2(E.d1[1][i], E.d1[2][i])
                  IN  /\ o[1][i] = (IF a = 1 THEN x ELSE y)
                      /\ o[2][i] = (x[1] + 1 - a) % 2
                      /\ o[3][i] = (y[1] + a) % 2

Next == Begin \/ Add \/ Read \/ Share \/ BadAdd \/ BadRead \/ Traffic \/ Diff \/ Points \/ Delta
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
