------------------------------- MODULE RowTrace -------------------------------
(***************************************************************************)
(* Decides recorded uses of row structures: what the owner serialises has  *)
(* rows of the announced size and comes back from shares as the columns    *)
(* that went in, row for row; what does not fit the structure is refused.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, def, cols
vars == <<l, def, cols>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ def = << >> /\ cols = << >>
Begin == Is("begin") /\ def' = << >> /\ cols' = << >>
Packed == Is("packed") /\ E.ok = 0 /\ UNCHANGED <<def, cols>>

Bytes(kind, pad) == CASE kind = "u32" -> 4 [] kind = "i32" -> 4 [] kind = "u64" -> 8 [] kind = "i64" -> 8
                      [] kind = "u32s" -> 4 * pad [] kind = "i32s" -> 4 * pad [] kind = "u64s" -> 8 * pad [] kind = "i64s" -> 8 * pad
RECURSIVE Needs(_, _, _)
Needs(kinds, pad, i) == IF i > Len(kinds) THEN 0
                        ELSE (IF kinds[i] = "bit" THEN 0 ELSE Bytes(kinds[i], pad)) + Needs(kinds, pad, i + 1)
Bits(kinds) == Cardinality({i \in 1..Len(kinds) : kinds[i] = "bit"})
\* eight bits share a byte
Def == /\ Is("def") /\ cols' = << >> /\ def' = [kinds |-> E.kinds, size |-> E.size]
       /\ E.size = Needs(E.kinds, E.pad, 1) + ((Bits(E.kinds) + 7) \div 8)
Ser == /\ Is("ser") /\ UNCHANGED def
       /\ E.ok = (IF E.flaw = "none" THEN 1 ELSE 0)
       /\ E.ok = 1 => Len(E.lens) = E.n /\ \A i \in 1..E.n : E.lens[i] = def.size
       /\ cols' = IF E.ok = 1 THEN E.cols ELSE << >>
Back == /\ Is("back") /\ UNCHANGED <<def, cols>>
        /\ E.count = Len(cols) /\ Len(E.cols) = Len(cols)
        /\ \A c \in 1..Len(cols) : E.cols[c] = [i \in 1..Len(E.pick) |-> cols[c][E.pick[i] + 1]]

Next == Begin \/ Packed \/ Def \/ Ser \/ Back
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
