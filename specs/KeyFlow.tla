------------------------------ MODULE KeyFlow ------------------------------
(***************************************************************************)
(* The life of correlated keys in an extended session, abstractly: a key   *)
(* is made, and then either delivered once or used up in starting one      *)
(* extension, never both.  MCKeyFlow shows that the buffering scheme of    *)
(* the code refines this; KeyTrace holds recorded sessions against it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES made, given, burnt, last
kf == <<made, given, burnt, last>>
Range(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Range(s)) = Len(s)

KInit == made = {} /\ given = {} /\ burnt = {} /\ last = {}
\* the first keys come from elsewhere
Boot(ids) == /\ made = {} /\ Distinct(ids)
             /\ made' = Range(ids) /\ last' = Range(ids)
             /\ UNCHANGED <<given, burnt>>
\* an extension uses up keys of the newest lot and makes a new lot
Extend(in, out) == /\ Distinct(in) /\ Distinct(out)
                   /\ Range(in) \subseteq last
                   /\ Range(in) \cap (given \cup burnt) = {}
                   /\ Range(out) \cap made = {}
                   /\ burnt' = burnt \cup Range(in)
                   /\ made' = made \cup Range(out)
                   /\ last' = Range(out)
                   /\ UNCHANGED given
Deliver(ids) == /\ Distinct(ids)
                /\ Range(ids) \subseteq made
                /\ Range(ids) \cap (given \cup burnt) = {}
                /\ given' = given \cup Range(ids)
                /\ UNCHANGED <<made, burnt, last>>
UsedOnce == given \cap burnt = {}

\* ---- dividing the base keys of one extension
Divided(in, a, b) == /\ Distinct(a) /\ Distinct(b)
                     /\ Range(a) \cap Range(b) = {}
                     /\ Range(a) \cup Range(b) = Range(in)
\* ---- pieces of one lot: all different, nothing from outside
Pieces(in, ps) == LET all == UNION {Range(ps[i]) : i \in 1..Len(ps)}
                      Total[i \in 0..Len(ps)] == IF i = 0 THEN 0 ELSE Total[i - 1] + Len(ps[i])
                  IN  all \subseteq Range(in) /\ Cardinality(all) = Total[Len(ps)]
=============================================================================
