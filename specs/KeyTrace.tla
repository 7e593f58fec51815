------------------------------ MODULE KeyTrace ------------------------------
(***************************************************************************)
(* Decides recorded flows of labelled keys through the real code: see      *)
(* KeyFlow for the rules of a session.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, made, given, burnt, last, seen, cnt
vars == <<l, cfg, made, given, burnt, last, seen, cnt>>
K == INSTANCE KeyFlow
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
Rest == UNCHANGED <<cfg, made, given, burnt, last>>
Same == UNCHANGED <<cfg, seen, cnt>>

Init == l = 1 /\ K!KInit /\ seen = {} /\ cnt = 0 /\ cfg = [kind |-> "", base |-> 0, ext |-> 0]
Begin == /\ Is("begin")
         /\ cfg' = [kind |-> E.kind, base |-> E.base, ext |-> E.ext]
         /\ made' = {} /\ given' = {} /\ burnt' = {} /\ last' = {} /\ seen' = {} /\ cnt' = 0

\* ---- a session
Boot == Is("boot") /\ Len(E.ids) = cfg.base /\ K!Boot(E.ids) /\ Same
Extend == Is("extend") /\ Len(E.in) = cfg.base /\ K!Extend(E.in, E.out) /\ Same
Take == Is("take") /\ Len(E.ids) = E.n /\ K!Deliver(E.ids) /\ Same
\* both sides take the same keys at the same places
Agree == Is("agree") /\ E.a = E.b /\ Rest /\ UNCHANGED <<seen, cnt>>

\* ---- one extension
Divide == /\ Is("divide")
          /\ E.asked = <<cfg.base + E.need, cfg.base + E.need>>
          /\ E.calls = <<E.times, E.times, E.times, E.times>>
          /\ E.m[1] = E.m[2] /\ E.p[1] = E.p[2]
          /\ Len(E.m[1]) = cfg.base /\ Len(E.p[1]) = E.need
          /\ K!Divided(E.in, E.m[1], E.p[1])
          \* the public matrix is agreed on and is another one every time
          /\ E.seed[1] = E.seed[2] /\ Len(E.seed[1]) = 16
          /\ E.seed[1] \notin seen /\ seen' = seen \cup {E.seed[1]}
          \* the two parts are put together place by place
          /\ \A q \in 1..2 : /\ Len(E.out[q]) = cfg.ext
                             /\ \A i \in 1..cfg.ext : E.out[q][i] = ((1000 + i - 1) ^^ (5 + (i - 1) * 7))
          /\ Rest /\ UNCHANGED cnt

\* ---- one multi-point transfer: depth keys for each of the single points
Parted == /\ Is("pieces")
          /\ E.need = cfg.base * cfg.ext /\ Len(E.in) = E.need
          /\ Len(E.p) = cfg.ext
          /\ \A i \in 1..Len(E.p) : Len(E.p[i]) = cfg.base
          /\ K!Pieces(E.in, E.p)
          /\ E.out = E.made
          /\ Rest /\ UNCHANGED <<seen, cnt>>

\* ---- chosen-message transfers: a key for each, and no cipher text twice
Apart(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Transfer == /\ Is("transfer")
            /\ \A q \in 1..2 : E.asked[q][1] >= E.sum /\ E.asked[q][2] >= E.sum
            /\ \A q \in 1..2 : Len(E.wire[q]) = 2 * E.n
            \* (the two cipher texts of a transfer do not differ the same way twice either: the keys of a
            \* transfer differ by the session's constant, and are not used as they are)
            /\ (E.same = 1 /\ E.int = 0 /\ E.n >= 60) =>
                   \A q \in 1..2 : {E.wire[q][i] ^^ E.wire[q][E.n + i] : i \in 1..E.n} = {0, 1}
            /\ IF E.same = 1 /\ E.int = 1
               THEN /\ seen' = seen \cup K!Range(E.wire[1]) \cup K!Range(E.wire[2])
                               \cup {<<"x">> \o Apart(E.wire[q][i], E.wire[q][E.n + i]) : i \in 1..E.n, q \in 1..2}
                    /\ cnt' = cnt + 6 * E.n
                    /\ Cardinality(seen') = cnt'
               ELSE UNCHANGED <<seen, cnt>>
            /\ Rest

\* ---- tuples: the choices of the keys, in the lots the generator asked for, go in order to the
\* boolean tuples, to the composite ones or nowhere, none to two of them
Meets(chunk, got, at) == \A i \in 1..Len(chunk) : at + i <= Len(got) => chunk[i] = got[at + i]
RECURSIVE Ways(_, _, _, _)
Ways(i, S, b, c) ==        \* S: how many of b and of c the first i - 1 lots may account for
    IF i > Len(E.chunks) THEN S
    ELSE LET ch == E.chunks[i]
         IN  Ways(i + 1, S \cup {<<s[1] + Len(ch), s[2]>> : s \in {t \in S : t[1] < Len(b) /\ Meets(ch, b, t[1])}}
                           \cup {<<s[1], s[2] + Len(ch)>> : s \in {t \in S : t[2] < Len(c) /\ Meets(ch, c, t[2])}}, b, c)
Flow == /\ Is("flow")
        /\ E.asked0 = E.asked1
        /\ \E s \in Ways(1, {<<0, 0>>}, E.b, E.c) : s[1] >= Len(E.b) /\ s[2] >= Len(E.c)
        /\ Rest /\ UNCHANGED <<seen, cnt>>
\* no place of the vectors is a constant
Spread == /\ Is("spread")
          /\ \A j \in 1..E.size : /\ {E.b[i][j] : i \in 1..Len(E.b)} = {0, 1}
                                  /\ {E.c[i][j] : i \in 1..Len(E.c)} = {0, 1}
          /\ Rest /\ UNCHANGED <<seen, cnt>>

Next == Begin \/ Boot \/ Extend \/ Take \/ Agree \/ Divide \/ Parted \/ Transfer \/ Flow \/ Spread
Spec == Init /\ [][Next]_vars
UsedOnce == K!UsedOnce
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
