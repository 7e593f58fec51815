------------------------------- MODULE WalrTrace -------------------------------
(***************************************************************************)
(* Decides recorded matrix-vector multiplications: every column of the     *)
(* result is the noise plus the features whose label is one, up to what    *)
(* rounding to the fixed point may lose; misuse is refused; the recorders  *)
(* hold what was sent; a transfer delivers the chosen message.             *)
(* Values are integers in quarters of a fixed-point step ("quarter"), or   *)
(* in a unit that is a whole number of steps.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, run, count, seen
vars == <<l, run, count, seen>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Zero == [labels |-> 0, cells |-> 0, mults |-> 0, rows |-> 0]
Init == l = 1 /\ run = << >> /\ count = Zero /\ seen = {}
Begin == Is("begin") /\ run' = E /\ count' = Zero /\ seen' = {}

RECURSIVE Sum(_, _, _, _)
Sum(f, pick, j, i) == IF i > Len(pick) THEN 0 ELSE (IF pick[i] THEN f[i][j] ELSE 0) + Sum(f, pick, j, i + 1)
Abs(x) == IF x < 0 THEN -x ELSE x

Mult ==
  /\ Is("mult") /\ UNCHANGED <<run, seen>>
  /\ E.owner = 0 /\ E.other = 0 /\ Len(E.out) = E.m
  /\ LET pick == [i \in 1..E.n |-> E.l0[i] # E.l1[i]]
         Exact(k) == run.w = 0 \/ (E.pow2 = 1 /\ (E.quarter = 0 \/ k % 4 = 0))
         Lossy(j) == (IF Exact(E.noise[j]) THEN 0 ELSE 1) + Cardinality({i \in 1..E.n : pick[i] /\ ~Exact(E.f[i][j])})
         \* a step is four quarters, or one unit or less of what is multiplied out
         Step == IF E.quarter = 1 THEN 4 ELSE 1
     IN \A j \in 1..E.m : LET off == Abs(E.out[j] - E.noise[j] - Sum(E.f, pick, j, 1))
                          IN IF Lossy(j) = 0 THEN off = 0 ELSE off <= Step * Lossy(j)
  /\ E.pow2 = 1 => E.sharp = 1
  /\ count' = [labels |-> count.labels + E.n, cells |-> count.cells + E.n * E.m, mults |-> count.mults + 1, rows |-> count.rows + E.m]

Refused(ev, owner, other) == Is(ev) /\ E.owner = owner /\ E.other = other /\ UNCHANGED <<run, count, seen>>
Count == Refused("count", 1, 0)
Ragged == Refused("ragged", 1, 0)
Role == Refused("role", 2, 2)
Divisor == /\ Is("divisor") /\ UNCHANGED <<run, count, seen>>
           /\ E.res = IF E.fits = 1 THEN <<0, 0>> ELSE <<1, 1>>

Value(k) == IF \E i \in 1..Len(E.m) : E.m[i].k = k THEN E.m[CHOOSE i \in 1..Len(E.m) : E.m[i].k = k].v ELSE -1
Metrics ==
  /\ Is("metrics") /\ UNCHANGED <<run, count, seen>> /\ E.recorders = 1
  /\ IF run.w = 0
     THEN Value(IF E.owner = 1 THEN "features_received" ELSE "features_sent") = count.rows
          /\ Value(IF E.owner = 1 THEN "features_sent" ELSE "features_received") = 0
     ELSE LET big == IF E.owner = 1 THEN "sent" ELSE "received"
              small == IF E.owner = 1 THEN "received" ELSE "sent"
          IN /\ Value("ot_messages_used") = count.labels
             /\ Value("columns_" \o big) = count.labels /\ Value("columns_" \o small) = count.mults
             /\ Value("features_" \o big) = count.cells /\ Value("features_" \o small) = count.rows
Traffic == /\ Is("traffic") /\ UNCHANGED <<run, count, seen>>
           /\ E.whole = 1 => (E.aSent = E.bGot /\ E.bSent = E.aGot)

CotRole == Is("cotRole") /\ E.res = 2 /\ UNCHANGED <<run, count, seen>>
Messages(s) == {s[i] : i \in 1..Len(s)}
Cot ==
  /\ Is("cot") /\ UNCHANGED <<run, count>>
  /\ Len(E.m) = E.n /\ Len(E.m0) = E.n /\ Len(E.m1) = E.n
  /\ \A i \in 1..E.n : E.m0[i] # E.m1[i] /\ E.m[i] = IF E.c[i] = 1 THEN E.m1[i] ELSE E.m0[i]
  \* messages are not used twice
  /\ LET all == Messages(E.m0) \cup Messages(E.m1)
     IN IF run.rcot = "dummyRcot" THEN seen' = seen
        ELSE Cardinality(all) = 2 * E.n /\ all \cap seen = {} /\ seen' = seen \cup all

Next == Begin \/ Mult \/ Count \/ Ragged \/ Role \/ Divisor \/ Metrics \/ Traffic \/ CotRole \/ Cot
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
