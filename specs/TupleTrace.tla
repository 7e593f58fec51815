----------------------------- MODULE TupleTrace -----------------------------
(***************************************************************************)
(* Decides recorded multiplication tuples: the parties' shares combine to  *)
(* (a, b, c) with c = a * b, requests are answered in full, no tuple is    *)
(* delivered twice, the metrics tell what happened.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Words, Bitwise

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, used, bs, seen, cnt, comp
vars == <<l, cfg, used, bs, seen, cnt, comp>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
None == [noexp |-> 0, exp |-> 0, mnoexp |-> 0, mexp |-> 0]

Init == l = 1 /\ cfg = [n |-> 0, fresh |-> 0] /\ used = 0 /\ bs = << >> /\ seen = {} /\ cnt = 0 /\ comp = None
Begin == Is("begin") /\ cfg' = [n |-> E.n, fresh |-> E.fresh] /\ used' = 0 /\ bs' = << >> /\ seen' = {} /\ cnt' = 0 /\ comp' = None

Parties == 1..cfg.n
\* ---- bits: a tuple is 4a + 2b + c
XorOf(t, i) == IF cfg.n = 2 THEN t[1][i] ^^ t[2][i]
               ELSE LET X[p \in 0..cfg.n] == IF p = 0 THEN 0 ELSE X[p - 1] ^^ t[p][i] IN X[cfg.n]
GoodBit(x) == x \in {0, 2, 4, 7}
Win == 24
\* the windows that end in the new part
NewWins(s, from) == {SubSeq(s, i, i + Win - 1) : i \in {j \in 1..(Len(s) - Win + 1) : j + Win - 1 >= from}}
NWins(s, from) == Cardinality({j \in 1..(Len(s) - Win + 1) : j + Win - 1 >= from})
Bools == /\ Is("bools")
         /\ Len(E.t) = cfg.n
         /\ \A p \in Parties : Len(E.t[p]) = E.n
         /\ \A i \in 1..E.n : GoodBit(XorOf(E.t, i))
         /\ used' = used + E.n
         /\ IF cfg.fresh = 1
            THEN LET all == bs \o E.t[1]
                 IN  /\ bs' = IF Len(all) > Win THEN SubSeq(all, Len(all) - Win + 2, Len(all)) ELSE all
                     /\ seen' = seen \cup NewWins(all, Len(bs) + 1)
                     /\ cnt' = cnt + NWins(all, Len(bs) + 1)
                     /\ Cardinality(seen') = cnt'
            ELSE UNCHANGED <<bs, seen, cnt>>
         /\ UNCHANGED <<cfg, comp>>

\* ---- one bit times a vector
XorP(f(_)) == LET X[p \in 0..cfg.n] == IF p = 0 THEN 0 ELSE X[p - 1] ^^ f(p) IN X[cfg.n]
GoodComp(size, ts) ==      \* ts: the parties' shares <<a>>, b, c
    LET a == XorP(LAMBDA p : ts[p][1][1])
    IN  \A j \in 1..size : XorP(LAMBDA p : ts[p][3][j]) = a * XorP(LAMBDA p : ts[p][2][j])
LongB(want, t) == UNION {IF want[k][1] >= 32 THEN {<<want[k][1], i, t[k].t[i][2]>> : i \in 1..want[k][2]} ELSE {} : k \in 1..Len(want)}
Sum(f, n) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + f[i] IN S[n]
Comps == /\ Is("comps")
         /\ Len(E.t) = cfg.n
         /\ \A p \in Parties : /\ Len(E.t[p]) = Len(E.want)
                               /\ \A k \in 1..Len(E.want) :
                                    /\ E.t[p][k].size = E.want[k][1]
                                    /\ Len(E.t[p][k].t) = E.want[k][2]
                                    /\ \A i \in 1..E.want[k][2] : /\ Len(E.t[p][k].t[i][2]) = E.want[k][1]
                                                                  /\ Len(E.t[p][k].t[i][3]) = E.want[k][1]
         /\ \A k \in 1..Len(E.want) : \A i \in 1..E.want[k][2] :
                GoodComp(E.want[k][1], [p \in Parties |-> E.t[p][k].t[i]])
         /\ comp' = [noexp |-> comp.noexp + Sum([k \in 1..Len(E.want) |-> IF E.want[k][1] > 128 THEN 0 ELSE E.want[k][2]], Len(E.want)),
                     exp |-> comp.exp + Sum([k \in 1..Len(E.want) |-> IF E.want[k][1] > 128 THEN E.want[k][2] ELSE 0], Len(E.want)),
                     mnoexp |-> comp.mnoexp + Sum([k \in 1..Len(E.want) |-> IF E.want[k][1] > 128 THEN 0 ELSE E.want[k][1] * E.want[k][2]], Len(E.want)),
                     mexp |-> comp.mexp + Sum([k \in 1..Len(E.want) |-> IF E.want[k][1] > 128 THEN E.want[k][1] * E.want[k][2] ELSE 0], Len(E.want))]
         /\ IF cfg.fresh = 1
            THEN \* the first 32 bits of the vectors of a party: never the same twice
                 LET new == {x[3] : x \in LongB(E.want, E.t[1])}
                     pre == {SubSeq(b, 1, 32) : b \in new}
                 IN  /\ seen' = seen \cup pre
                     /\ cnt' = cnt + Cardinality(LongB(E.want, E.t[1]))
                     /\ Cardinality(seen') = cnt'
            ELSE UNCHANGED <<seen, cnt>>
         /\ UNCHANGED <<cfg, used, bs>>

\* ---- words
SumP(ts, k) == LET S[p \in 0..cfg.n] == IF p = 0 THEN WZero(8) ELSE WAdd(S[p - 1], ts[p][k]) IN S[cfg.n]
Ints == /\ Is("ints")
        /\ Len(E.t) = cfg.n
        /\ \A p \in Parties : Len(E.t[p]) = E.n
        /\ \A i \in 1..E.n : LET ts == [p \in Parties |-> E.t[p][i]]
                             IN  SumP(ts, 3) = WMul(SumP(ts, 1), SumP(ts, 2))
        /\ IF cfg.fresh = 1
           THEN /\ seen' = seen \cup {E.t[1][i][1] : i \in 1..E.n} \cup {E.t[1][i][2] : i \in 1..E.n}
                /\ cnt' = cnt + 2 * E.n
                /\ Cardinality(seen') = cnt'
           ELSE UNCHANGED <<seen, cnt>>
        /\ UNCHANGED <<cfg, used, bs, comp>>

\* ---- shares of l1*r2 + l2*r1
Products ==
    /\ Is("products") /\ E.refused = 1
    /\ LET n == Len(E.l[1])
       IN  /\ Len(E.o[1]) = n /\ Len(E.o[2]) = n
           /\ \A i \in 1..n :
                IF E.int = 1
                THEN WAdd(E.o[1][i], E.o[2][i]) = WAdd(WMul(E.l[1][i], E.r[2][i]), WMul(E.l[2][i], E.r[1][i]))
                ELSE (E.o[1][i] + E.o[2][i]) % 2 = (E.l[1][i] * E.r[2][i] + E.l[2][i] * E.r[1][i]) % 2
    /\ UNCHANGED <<cfg, used, bs, seen, cnt, comp>>
Traffic == Is("traffic") /\ E.a = <<E.b[2], E.b[1]>> /\ UNCHANGED <<cfg, used, bs, seen, cnt, comp>>

\* ---- a party's own shares: at no place of a lot does a bit of them stay the same, follow another
\* of the same tuple, or follow that of another place (fifty lots: by chance once in 2^45 sessions)
Places == 1..E.buf
Lots == 0..(E.n \div E.buf - 1)
Both(f(_)) == {f(k) : k \in Lots} = {0, 1}
A(x) == x \div 4
B(x) == (x \div 2) % 2
C(x) == (x % 2) ^^ (A(x) * B(x))
At(p, k) == E.t[k * E.buf + p]
SpreadBits ==
    \A p \in Places :
        /\ Both(LAMBDA k : A(At(p, k))) /\ Both(LAMBDA k : B(At(p, k))) /\ Both(LAMBDA k : C(At(p, k)))
        /\ \A q \in p..E.buf :
             /\ Both(LAMBDA k : A(At(p, k)) ^^ B(At(q, k)))
             /\ q > p => /\ Both(LAMBDA k : B(At(p, k)) ^^ A(At(q, k)))
                         /\ Both(LAMBDA k : A(At(p, k)) ^^ A(At(q, k)))
                         /\ Both(LAMBDA k : B(At(p, k)) ^^ B(At(q, k)))
                         /\ Both(LAMBDA k : C(At(p, k)) ^^ C(At(q, k)))
RECURSIVE Fold(_, _, _, _)
Fold(op(_, _), f(_), k, acc) == IF k < 0 THEN acc ELSE Fold(op, f, k - 1, TLCEval(op(acc, f(k))))
Varies(f(_)) == LET last == E.n \div E.buf - 1
                IN  /\ Fold(WOr, f, last, WZero(8)) = WNot(WZero(8))
                    /\ Fold(WAnd, f, last, WNot(WZero(8))) = WZero(8)
SpreadInts ==
    \A p \in Places :
        /\ Varies(LAMBDA k : At(p, k)[1]) /\ Varies(LAMBDA k : At(p, k)[2])
        /\ Varies(LAMBDA k : WXor(At(p, k)[1], At(p, k)[2]))
        /\ Varies(LAMBDA k : WSub(At(p, k)[3], WMul(At(p, k)[1], At(p, k)[2])))
        /\ \A q \in (p + 1)..E.buf : /\ Varies(LAMBDA k : WXor(At(p, k)[1], At(q, k)[1]))
                                     /\ Varies(LAMBDA k : WXor(At(p, k)[2], At(q, k)[2]))
Spread == /\ Is("spread") /\ Len(E.t) = E.n
          /\ IF E.int = 1 THEN SpreadInts ELSE SpreadBits
          /\ UNCHANGED <<cfg, used, bs, seen, cnt, comp>>

Metrics ==
    /\ Is("metrics") /\ E.refused = 1
    /\ E.m.boolean_tuples_consumed = used
    /\ E.m.boolean_tuples_generated >= used
    /\ E.m.boolean_tuples_unused = E.m.boolean_tuples_generated - used
    /\ E.m.composite_tuples_requested = comp.noexp + comp.exp
    /\ E.m.composite_tuples_without_expansion_requested = comp.noexp
    /\ E.m.composite_tuples_requiring_expansion_requested = comp.exp
    /\ E.m.mini_tuples_without_expansion_requested = comp.mnoexp
    /\ E.m.mini_tuples_requiring_expansion_requested = comp.mexp
    /\ UNCHANGED <<cfg, used, bs, seen, cnt, comp>>

Next == Begin \/ Bools \/ Comps \/ Ints \/ Products \/ Traffic \/ Metrics \/ Spread
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
