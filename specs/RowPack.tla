------------------------------- MODULE RowPack -------------------------------
(***************************************************************************)
(* Row layout: the columns are walked in one order, the same on both sides *)
(* of serialisation.  Bits are collected and put as one byte when a ninth  *)
(* comes and at the end; every other column takes its own bytes when its   *)
(* turn comes.                                                             *)
(* Checked for every sequence of columns: every column has a place of its  *)
(* own - no two overlap, nothing lies beyond the announced size and no     *)
(* byte is empty - and up to eight bits share a byte, so that the size is  *)
(* the least possible.                                                     *)
(* Mistake: "none"; "ninth": the byte is put only after a ninth bit;       *)
(* "noFlush": the bits of the end are forgotten; "breaks": every column of *)
(* another kind ends the byte; "early": put when the eighth comes, with    *)
(* the eighth left out.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxCols, Sizes, Capacity, Mistake     \* Sizes: of the columns that are no bits; Capacity: bits per byte
VARIABLES cols, bits, place, size, closed
\* cols: sizes so far (0 for a bit); bits: columns waiting; place: column -> <<byte, bit>> (bit -1: whole bytes)
vars == <<cols, bits, place, size, closed>>

Init == cols = << >> /\ bits = << >> /\ place = << >> /\ size = 0 /\ closed = FALSE
With(f, g) == [c \in DOMAIN f \cup DOMAIN g |-> IF c \in DOMAIN g THEN g[c] ELSE f[c]]
Byte(waiting) == [c \in {waiting[j] : j \in 1..Len(waiting)} |-> <<size, (CHOOSE j \in 1..Len(waiting) : waiting[j] = c) - 1>>]
Me == Len(cols) + 1
AddBit == /\ ~closed /\ Me <= MaxCols /\ cols' = Append(cols, 0) /\ UNCHANGED closed
          /\ LET limit == IF Mistake = "ninth" THEN Capacity + 1 ELSE Capacity IN
             IF Mistake = "early" /\ Len(bits) = Capacity - 1
             THEN place' = With(place, Byte(bits)) /\ size' = size + 1 /\ bits' = << >>
             ELSE IF Len(bits) = limit
             THEN place' = With(place, Byte(bits)) /\ size' = size + 1 /\ bits' = <<Me>>
             ELSE bits' = Append(bits, Me) /\ UNCHANGED <<place, size>>
AddOther(s) == /\ ~closed /\ Me <= MaxCols /\ cols' = Append(cols, s) /\ UNCHANGED closed
               /\ IF Mistake = "breaks" /\ bits # << >>
                  THEN /\ place' = With(With(place, Byte(bits)), [c \in {Me} |-> <<size + 1, -1>>])
                       /\ size' = size + 1 + s /\ bits' = << >>
                  ELSE /\ place' = With(place, [c \in {Me} |-> <<size, -1>>]) /\ size' = size + s /\ UNCHANGED bits
Close == /\ ~closed /\ cols # << >> /\ closed' = TRUE /\ UNCHANGED cols
         /\ IF bits = << >> \/ Mistake = "noFlush" THEN UNCHANGED <<place, size, bits>>
            ELSE place' = With(place, Byte(bits)) /\ size' = size + 1 /\ bits' = << >>
Next == AddBit \/ (\E s \in Sizes : AddOther(s)) \/ Close
Spec == Init /\ [][Next]_vars

Cells(c) == IF cols[c] = 0 THEN {<<place[c][1], place[c][2]>>}
            ELSE {<<place[c][1] + b, i>> : b \in 0..(cols[c] - 1), i \in 0..(Capacity - 1)}
Cols == 1..Len(cols)
Placed == closed => /\ DOMAIN place = Cols
                    /\ \A c \in Cols : \A x \in Cells(c) : x[1] < size /\ x[2] < Capacity
                    /\ \A c, d \in Cols : c # d => Cells(c) \cap Cells(d) = {}
Total[i \in Nat] == IF i = 0 THEN 0 ELSE Total[i - 1] + cols[i]
NBits == Cardinality({c \in Cols : cols[c] = 0})
Least == closed => size = Total[Len(cols)] + (NBits + Capacity - 1) \div Capacity
==============================================================================
