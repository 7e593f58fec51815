----------------------------- MODULE EncoderTrace -----------------------------
(***************************************************************************)
(* Decides recorded uses of the ORAM index encoder.  The state is the      *)
(* table from rows to indexes, filled on first sight, with one index for   *)
(* all rows a filter rejects; decoding is its inverse.  Numbers are four   *)
(* bytes, most significant first.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, filters, index, out
\* index: row -> its number; out: the number of rejected rows or -1
vars == <<l, filters, index, out>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Single == {"GT", "LT", "GTE", "LTE", "EQ", "NEQ"}
Less(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Passes(f, row) == LET x == row[f.col + 1]
                      y == f.vals[1]
                      among == \E i \in 1..Len(f.vals) : f.vals[i] = x
                  IN  CASE f.type = "GT" -> Less(y, x)
                        [] f.type = "LT" -> Less(x, y)
                        [] f.type = "GTE" -> ~Less(x, y)
                        [] f.type = "LTE" -> ~Less(y, x)
                        [] f.type = "EQ" -> x = y
                        [] f.type = "NEQ" -> x # y
                        [] f.type = "SUBSET_OF" -> among
                        [] f.type = "NOT_SUBSET_OF" -> ~among
\* the filters are asked in turn and the first rejection decides; a filter on a column the row lacks is an error
RECURSIVE Verdict(_, _)
Verdict(row, i) == IF i > Len(filters) THEN "in"
                   ELSE IF filters[i].col + 1 > Len(row) THEN "error"
                   ELSE IF Passes(filters[i], row) THEN Verdict(row, i + 1) ELSE "out"

Init == l = 1 /\ filters = << >> /\ index = << >> /\ out = -1
Begin == Is("begin") /\ filters' = << >> /\ index' = << >> /\ out' = -1
\* a filter takes one value or a set of values as its kind demands
Filter == /\ Is("filter") /\ UNCHANGED <<index, out>>
          /\ E.ok = (IF (E.type \in Single) = (E.many = 0) THEN 1 ELSE 0)
          /\ filters' = IF E.ok = 1 THEN Append(filters, E) ELSE filters

Size == Cardinality(DOMAIN index) + (IF out = -1 THEN 0 ELSE 1)
\* which fresh number a new row gets is the encoder's business; the numbers in use are 0 .. Size - 1
Encode == /\ Is("enc") /\ UNCHANGED filters
          /\ IF \E i \in 1..Len(E.rows) : Verdict(E.rows[i], 1) = "error"
             THEN E.ok = 0 /\ UNCHANGED <<index, out>>
             ELSE /\ E.ok = 1 /\ Len(E.out) = Len(E.rows)
                  /\ LET rejected == {i \in 1..Len(E.rows) : Verdict(E.rows[i], 1) = "out"}
                         rows == {E.rows[i] : i \in 1..Len(E.rows) \ rejected}
                         fresh == rows \ DOMAIN index
                         first(x) == CHOOSE i \in 1..Len(E.rows) \ rejected : E.rows[i] = x
                     IN  /\ index' = [x \in DOMAIN index \cup fresh |-> IF x \in DOMAIN index THEN index[x] ELSE E.out[first(x)]]
                         /\ out' = IF out = -1 /\ rejected # {} THEN E.out[CHOOSE i \in rejected : TRUE] ELSE out
                         /\ \A i \in 1..Len(E.rows) : E.out[i] = IF i \in rejected THEN out' ELSE index'[E.rows[i]]
                         /\ LET used == {index'[x] : x \in DOMAIN index'} \cup (IF out' = -1 THEN {} ELSE {out'})
                            IN  used = 0..(E.size - 1) /\ E.size = Cardinality(DOMAIN index') + (IF out' = -1 THEN 0 ELSE 1)
Decode == /\ Is("dec") /\ UNCHANGED <<filters, index, out>>
          /\ IF \E i \in 1..Len(E.idx) : E.idx[i] >= Size THEN E.ok = 0
             ELSE /\ E.ok = 1 /\ Len(E.out) = Len(E.idx)
                  /\ \A i \in 1..Len(E.idx) : IF E.idx[i] = out THEN E.out[i] = << >>
                                              ELSE E.out[i] \in DOMAIN index /\ index[E.out[i]] = E.idx[i]

Next == Begin \/ Filter \/ Encode \/ Decode
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
