------------------------------- MODULE OtTrace -------------------------------
(***************************************************************************)
(* Decides recorded oblivious transfers.  Blocks are 16 bytes.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, seen, count      \* every key handed out in this session, and their number
vars == <<l, seen, count>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Xor2(a, b) == [i \in 1..16 |-> a[i] ^^ b[i]]
Nil == [i \in 1..16 |-> 0]
Lsb(k) == k[1] % 2
SetOf(s) == {s[i] : i \in 1..Len(s)}

Init == l = 1 /\ seen = {} /\ count = 0
Begin == Is("begin") /\ seen' = {} /\ count' = 0

\* ---- base transfers: the chosen one of two different, fresh messages
Base == /\ Is("base")
        /\ Len(E.m0) = E.n /\ Len(E.m1) = E.n /\ Len(E.m) = E.n
        /\ \A i \in 1..E.n : E.m[i] = (IF E.choice[i] = 1 THEN E.m1[i] ELSE E.m0[i])
        /\ IF E.fresh = 1
           THEN /\ seen' = seen \cup SetOf(E.m0) \cup SetOf(E.m1)
                /\ count' = count + 2 * E.n
                /\ Cardinality(seen') = count'
           ELSE UNCHANGED <<seen, count>>

\* ---- correlated transfers: the choice is the last bit of the receiver's key
Rcot == /\ Is("rcot")
        /\ Len(E.k0) = E.n /\ Len(E.k1) = E.n
        /\ \A i \in 1..E.n : /\ Lsb(E.k0[i]) = 0
                             /\ E.k1[i] = (IF Lsb(E.k1[i]) = 1 THEN Xor2(E.k0[i], E.delta) ELSE E.k0[i])
        \* the choices are made by somebody: neither constant nor repeating
        /\ E.n >= 100 => {Lsb(E.k1[i]) : i \in 1..E.n} = {0, 1}
        /\ seen' = seen \cup SetOf(E.k0) /\ count' = count + E.n
        /\ Cardinality(seen') = count'
\* of a long row of transfers only some are written down, but all are there
Sizes == Is("size") /\ E.k0 = E.n /\ E.k1 = E.n /\ UNCHANGED <<seen, count>>
BadDelta == Is("baddelta") /\ E.ok = 0 /\ UNCHANGED <<seen, count>>

\* ---- point transfers: in every block the keys differ in one place, by delta; the place is the
\*      number spelled by the (negated) choices of the base transfers, highest bit first
Place(bits) == LET d == Len(bits)
                   Go[i \in 0..d] == IF i = 0 THEN 0 ELSE 2 * Go[i - 1] + (1 - bits[i])
               IN  Go[d]
Points == /\ Is("points")
          /\ E.refused = 1
          /\ E.need = <<E.depth * E.w, E.depth * E.w>>
          /\ LET n == 2 ^ E.depth
             IN  /\ Len(E.s) = n * E.w /\ Len(E.r) = n * E.w
                 /\ \A b \in 0..(E.w - 1) :
                      LET p == Place(SubSeq(E.base, b * E.depth + 1, (b + 1) * E.depth))
                      IN  \A i \in 0..(n - 1) :
                            Xor2(E.s[b * n + i + 1], E.r[b * n + i + 1]) = (IF i = p THEN E.delta ELSE Nil)
          /\ \A i \in 1..Len(E.s) : Lsb(E.s[i]) = 0
          /\ seen' = seen \cup SetOf(E.s) /\ count' = count + Len(E.s)
          /\ Cardinality(seen') = count'

\* what the sender says does not give away the keys: neither half of a layer's sum stands on the wire as
\* it is or under a base key that is not hashed, and no two messages share their mask
XorOf(s) == LET RECURSIVE Go(_, _)
                Go(i, acc) == IF i > Len(s) THEN acc ELSE Go(i + 1, TLCEval(Xor2(acc, s[i])))
            IN  Go(1, Nil)
Even(b) == [b EXCEPT ![1] = @ - (@ % 2)]
Hidden == /\ Is("hidden")
          /\ \E left \in {TLCEval(XorOf([i \in 1..(Len(E.s) \div 2) |-> E.s[2 * i - 1]]))},
                right \in {TLCEval(XorOf([i \in 1..(Len(E.s) \div 2) |-> E.s[2 * i]]))} :
                /\ \A i \in 1..Len(E.wire), half \in {left, right} :
                      LET mask == Even(Xor2(E.wire[i], half))
                      IN  /\ mask # Nil
                          /\ \A b \in SetOf(E.base) : mask \notin {Even(b), Even(Xor2(b, E.delta))}
                /\ \A i, j \in 1..Len(E.wire) : i < j =>
                      Even(Xor2(Xor2(E.wire[i], E.wire[j]), Xor2(left, right))) \notin {Nil, Even(E.delta)}
          /\ UNCHANGED <<seen, count>>

\* ---- the public matrix: rows with an even number (at most ten) of ones, the same for the same seed
BitOf(v, i) == (v[(i \div 8) + 1] \div <<1, 2, 4, 8, 16, 32, 64, 128>>[(i % 8) + 1]) % 2
Weight(row) == Cardinality({i \in 0..127 : BitOf(row, i) = 1})
RECURSIVE XorAll(_, _)
XorAll(s, acc) == IF s = << >> THEN acc ELSE XorAll(Tail(s), Xor2(acc, Head(s)))
Row(x, row) == XorAll(SelectSeq([i \in 1..Len(x) |-> IF BitOf(row, i - 1) = 1 THEN x[i] ELSE << >>], LAMBDA b : b # << >>), Nil)
Matrix == /\ Is("matrix")
          /\ Len(E.rows) = E.k /\ Len(E.mx) = E.k /\ Len(E.my) = E.k /\ Len(E.mz) = E.k
          /\ \A i \in 1..E.k :
                /\ E.mx[i] = Row(E.x, E.rows[i])
                /\ Xor2(E.mx[i], E.my[i]) = E.mz[i]
                /\ Weight(E.rows[i]) <= 10 /\ Weight(E.rows[i]) % 2 = 0
          /\ (E.n >= 64 /\ E.k >= 10) => (E.rows # E.rows2 /\ Cardinality(SetOf(E.rows)) = E.k)
          /\ UNCHANGED <<seen, count>>

\* seen as a whole: ten places to a row, drawn from all there are and from no few of them more than
\* twice as often as from the rest, and another matrix for every other seed
Uses(i) == Cardinality({j \in 1..E.k : BitOf(E.rows[j], i) = 1})
Wide == /\ Is("wide") /\ Len(E.rows) = E.k
        /\ \E j \in 1..E.k : Weight(E.rows[j]) = 10
        /\ \A i \in 0..(E.n - 1) : Uses(i) > 0 /\ Uses(i) * E.n <= 40 * E.k
        /\ Cardinality(SetOf(E.first)) = Len(E.first)
        /\ UNCHANGED <<seen, count>>

Bidi == /\ Is("bidi")
        /\ Len(E.out) = E.n
        /\ \A i \in 1..E.n : E.out[i] = (IF E.choice[i] = 1 THEN E.in1[i] ELSE E.in0[i])
        /\ UNCHANGED <<seen, count>>

\* what one side says it sent the other says it received
Traffic == Is("traffic") /\ E.a = <<E.b[2], E.b[1]>> /\ UNCHANGED <<seen, count>>

Next == Begin \/ Base \/ Sizes \/ Rcot \/ BadDelta \/ Points \/ Matrix \/ Wide \/ Hidden \/ Bidi \/ Traffic
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
