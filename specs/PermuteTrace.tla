----------------------------- MODULE PermuteTrace -----------------------------
(***************************************************************************)
(* Decides recorded permutations, shuffles and compactions of one column.  *)
(* Items are opaque; orders count from 0.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, col
vars == <<l, col>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

IsOrder(s, n) == Len(s) = n /\ {s[i] : i \in 1..Len(s)} = 0..(n - 1)
Apply(order, c) == [i \in 1..Len(c) |-> c[order[i] + 1]]
RECURSIVE Both(_, _, _, _)
Both(c, p, q, k) == IF k > Len(p) THEN c ELSE Both(Apply(q[k], Apply(p[k], c)), p, q, k + 1)
Count(x, c) == Cardinality({i \in 1..Len(c) : c[i] = x})
SameItems(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a[i], a) = Count(a[i], b)

Init == l = 1 /\ col = << >>
Begin == Is("begin") /\ col' = << >>
End == Is("end") /\ UNCHANGED col
In == Is("in") /\ col' = E.vals
Permute == Is("permute") /\ IsOrder(E.order, Len(col)) /\ col' = Apply(E.order, col)
\* an order that is none is refused
BadOrder == Is("badorder") /\ ~IsOrder(E.order, Len(col)) /\ E.ok = 0 /\ UNCHANGED col
\* both parties' own orders apply, one after the other
Shuffle == /\ Is("shuffle")
           /\ \/ col' = Both(col, E.p0, E.p1, 1)
              \/ col' = Both(col, E.p1, E.p0, 1)
Mix == /\ Is("mix") /\ SameItems(E.out, col) /\ col' = E.out
       /\ E.how = "none" => E.out = col
Open == Is("open") /\ E.out = col /\ UNCHANGED col

RECURSIVE Chosen(_, _, _)
Chosen(c, lab, i) == IF i = 0 THEN << >>
                     ELSE IF lab[i] = 1 THEN Append(Chosen(c, lab, i - 1), c[i]) ELSE Chosen(c, lab, i - 1)
\* the labelled items, each as often as it occurs, with their labels; where the number of items must not be
\* revealed the compactor refuses.  There are no empty columns: with nothing chosen both parties get an error
Compact == /\ Is("compact")
           /\ UNCHANGED col /\ E.alike = 1
           /\ LET want == Chosen(E.vals, E.label, Len(E.vals))
              IN  IF E.reveal = 0 /\ E.how # "dummy" THEN E.out = "refused"
                  ELSE IF want = << >> THEN E.out = "none"
                  ELSE /\ SameItems(E.out[1], want)
                       /\ E.out[2] = [i \in 1..Len(want) |-> 1]

\* no outcome of a fair draw among `cells' is off by more than seven standard deviations
Fair(c, total, cells) == LET mu == total \div cells IN (c - mu) * (c - mu) <= 49 * mu
Drawn == /\ Is("drawn") /\ UNCHANGED col
         /\ \A i \in 1..Len(E.counts) : Fair(E.counts[i], E.total, E.cells)
         /\ FoldLeft(LAMBDA a, b : a + b, 0, E.counts) = (IF E.cells = 0 THEN 0 ELSE E.total)

Next == Drawn \/ Begin \/ End \/ In \/ Permute \/ BadOrder \/ Shuffle \/ Mix \/ Open \/ Compact
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
