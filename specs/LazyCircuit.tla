---------------------------- MODULE LazyCircuit ----------------------------
(***************************************************************************)
(* Design of the secret-sharing scheduler with lazy (level by level)       *)
(* execution.  Wires are added with a level; reading a wire executes every *)
(* level up to its own; even levels hold free gates, executed in the order *)
(* they were added, odd levels hold gates that need an exchange, executed  *)
(* together.  Values are numbers modulo R - bits for R = 2 - of which each *)
(* party holds an additive (XOR) share; "xor" is addition, "and"           *)
(* multiplication with a fresh triple, "not" the complement for R = 2 and  *)
(* the negative otherwise.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Parties,     \* {0, 1, ...}
          R,           \* modulus: 2 for boolean circuits, more for arithmetic ones
          MaxWires,
          Eager        \* TRUE: every gate is executed at once

VARIABLES wires,       \* sequence of gate records, in program order
          share,       \* share[w][p] for executed wires
          done,        \* set of executed wires
          first,       \* first unexecuted level
          target,      \* level being forced, -1 if none
          rounds,      \* exchanges so far
          execs        \* how often each wire's gate was executed
vars == <<wires, share, done, first, target, rounds, execs>>

Bit == 0..(R - 1)
N == Cardinality(Parties)
Ids == 1..Len(wires)

Shr == [Parties -> Bit]
Sum2(f) == LET Sum[S \in SUBSET Parties] == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN (Sum[S \ {p}] + f[p]) % R
           IN  Sum[Parties]
\* evaluated once
SumOf == TLCEval([f \in Shr |-> Sum2(f)])
Xor(f) == SumOf[f]
Negated(v) == IF R = 2 THEN 1 - v ELSE (R - v) % R
NegatedShare(p, v) == IF R = 2 THEN (IF p = 0 THEN 1 - v ELSE v) ELSE (R - v) % R
Sharings(v) == {f \in [Parties -> Bit] : Xor(f) = v}

NonFree(op) == op \in {"and", "open"}
IsLevelFree(l) == l % 2 = 0
Max(a, b) == IF a > b THEN a ELSE b

\* level of a gate whose deepest operand is available at level `in`
OutLevel(op, in) ==
    LET base == Max(in, first) + (IF NonFree(op) THEN 1 ELSE 0)
    IN IF IsLevelFree(base) = ~NonFree(op) THEN base ELSE base + 1

Gate(op, l, r, plain, to, lvl) == [op |-> op, l |-> l, r |-> r, plain |-> plain, to |-> to, level |-> lvl]

Init == /\ wires = << >> /\ share = << >> /\ done = {} /\ first = 0 /\ target = -1
        /\ rounds = 0 /\ execs = << >>

CanBuild == target = -1 /\ Len(wires) < MaxWires
NoShare == [p \in Parties |-> R]

Add(g, s, now) ==
    /\ wires' = Append(wires, g)
    /\ share' = Append(share, s)
    /\ execs' = Append(execs, IF now THEN 1 ELSE 0)
    /\ done' = IF now THEN done \union {Len(wires) + 1} ELSE done
    /\ target' = IF Eager /\ ~now THEN g.level ELSE -1
    /\ UNCHANGED <<first, rounds>>

\* an input is shared at once: the owner picks the sharing
Input == /\ CanBuild
         /\ \E v \in Bit : \E s \in Sharings(v) :
               Add(Gate("in", 0, 0, v, -1, OutLevel("in", first)), s, TRUE)
Usable(w) == wires[w].op # "open"
Free2 == /\ CanBuild
         /\ \E l, r \in Ids : Usable(l) /\ Usable(r) /\ l <= r
               /\ Add(Gate("xor", l, r, (wires[l].plain + wires[r].plain) % R, -1,
                           OutLevel("xor", Max(wires[l].level, wires[r].level))), NoShare, FALSE)
Not == /\ CanBuild
       /\ \E l \in Ids : Usable(l)
             /\ Add(Gate("not", l, l, Negated(wires[l].plain), -1, OutLevel("not", wires[l].level)), NoShare, FALSE)
And == /\ CanBuild
       /\ \E l, r \in Ids : Usable(l) /\ Usable(r) /\ l <= r
             /\ Add(Gate("and", l, r, (wires[l].plain * wires[r].plain) % R, -1,
                         OutLevel("and", Max(wires[l].level, wires[r].level))), NoShare, FALSE)
Open == /\ CanBuild
        /\ \E l \in Ids, p \in Parties : Usable(l)
              /\ Add(Gate("open", l, l, wires[l].plain, p, OutLevel("open", wires[l].level)), NoShare, FALSE)

Pending(lvl) == {w \in Ids \ done : wires[w].level = lvl}

\* what every party computes from the opened x - a and y - b, and its part of the triple
Beaver(x, y, a, b, c) ==
    LET d == (Xor(x) + R - Xor(a)) % R
        e == (Xor(y) + R - Xor(b)) % R
    IN [p \in Parties |-> (c[p] + d * b[p] + e * a[p] + (IF p = 0 THEN d * e ELSE 0)) % R]
Triples == TLCEval({t \in Shr \X Shr \X Shr : Xor(t[3]) = (Xor(t[1]) * Xor(t[2])) % R})
\* evaluated once
AndResults == TLCEval([x \in Shr, y \in Shr |-> {Beaver(x, y, t[1], t[2], t[3]) : t \in Triples}])

\* shares of w's result, given the shares known before; triples are fresh
Results(w, sh) ==
    LET g == wires[w]
        x == sh[g.l]
        y == sh[g.r]
    IN CASE g.op = "xor" -> {[p \in Parties |-> (x[p] + y[p]) % R]}
         [] g.op = "not" -> {[p \in Parties |-> NegatedShare(p, x[p])]}
         [] g.op = "open" -> {[p \in Parties |-> IF p = g.to THEN Xor(x) ELSE 0]}
         [] g.op = "and" -> AndResults[x, y]

\* free level: one gate at a time, in program order
ExecFree ==
    /\ target >= first /\ IsLevelFree(first) /\ Pending(first) # {}
    /\ LET w == CHOOSE w \in Pending(first) : \A u \in Pending(first) : w <= u
       IN /\ \E s \in Results(w, share) : share' = [share EXCEPT ![w] = s]
          /\ done' = done \union {w}
          /\ execs' = [execs EXCEPT ![w] = @ + 1]
    /\ UNCHANGED <<wires, first, target, rounds>>

\* non-free level: all gates read their operands first, then results appear together
ExecNonFree ==
    /\ target >= first /\ ~IsLevelFree(first)
    /\ LET P == Pending(first)
       IN /\ \E r \in [P -> [Parties -> Bit]] :
                /\ \A w \in P : r[w] \in Results(w, share)
                /\ share' = [w \in Ids |-> IF w \in P THEN r[w] ELSE share[w]]
          /\ done' = done \union P
          /\ execs' = [w \in Ids |-> IF w \in P THEN execs[w] + 1 ELSE execs[w]]
          /\ rounds' = rounds + (IF P = {} THEN 0 ELSE 1)
    /\ first' = first + 1
    /\ UNCHANGED <<wires, target>>

NextLevel == /\ target >= first /\ IsLevelFree(first) /\ Pending(first) = {}
             /\ first' = first + 1
             /\ UNCHANGED <<wires, share, done, target, rounds, execs>>

Force == /\ target = -1
         /\ \E w \in Ids \ done : target' = wires[w].level
         /\ UNCHANGED <<wires, share, done, first, rounds, execs>>
Forced == /\ target >= 0 /\ target < first /\ target' = -1
          /\ UNCHANGED <<wires, share, done, first, rounds, execs>>

Next == Input \/ Free2 \/ Not \/ And \/ Open \/ ExecFree \/ ExecNonFree \/ NextLevel \/ Force \/ Forced
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* shares of an executed wire stand for the plaintext value; an opened wire is known to its recipient only
Correct == \A w \in done :
              IF wires[w].op = "open"
              THEN \A p \in Parties : share[w][p] = (IF p = wires[w].to THEN wires[w].plain ELSE 0)
              ELSE Xor(share[w]) = wires[w].plain
\* operands are there when a gate is executed
InOrder == \A w \in done : wires[w].op # "in" => wires[w].l \in done /\ wires[w].r \in done
Once == \A w \in Ids : execs[w] = (IF w \in done THEN 1 ELSE 0)
\* everything at a level below the first unexecuted one is done
LevelsDone == \A w \in Ids : wires[w].level < first => w \in done
\* AND-depth of a wire counting openings
RECURSIVE Depth(_)
Depth(w) == IF wires[w].op = "in" THEN 0
            ELSE Max(Depth(wires[w].l), Depth(wires[w].r)) + (IF NonFree(wires[w].op) THEN 1 ELSE 0)
NonFreeWires == {w \in Ids : NonFree(wires[w].op)}
\* one exchange serves at least one gate; and no more exchanges than non-free gates
RoundsBounded == rounds <= Cardinality(NonFreeWires)
\* a program that is built completely before anything is read needs one exchange per depth
DepthBound == (\A w \in Ids : wires[w].level = (IF NonFree(wires[w].op) THEN 2 * Depth(w) - 1 ELSE 2 * Depth(w)))
                 => \A w \in Ids : rounds <= Max(1, CHOOSE d \in {Depth(u) : u \in Ids} : \A u \in Ids : Depth(u) <= d)
Inv == Correct /\ InOrder /\ Once /\ LevelsDone /\ RoundsBounded /\ DepthBound
=============================================================================
