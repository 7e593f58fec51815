------------------------------- MODULE Puncture -------------------------------
(***************************************************************************)
(* Single-point correlated transfer (SinglePointCot): the sender grows a   *)
(* binary tree of keys from a root; for every level one base transfer      *)
(* gives the receiver either the XOR of all left or of all right children  *)
(* of that level, as the place he chose demands.  From it he works out     *)
(* every key of the level but one.  At the end the sender adds the XOR of  *)
(* all leaves and delta, from which the receiver sets the leaf he misses.  *)
(*                                                                         *)
(* A key is the node it belongs to; the receiver knows a set of nodes and  *)
(* sums (sets of nodes), and can work out everything that follows: the     *)
(* children of what he knows, and the one unknown member of a sum.         *)
(* Checked for every depth and place: he ends with every leaf but the one  *)
(* at his place, never with that one, and the correction makes exactly     *)
(* this leaf differ from the sender's by delta.                            *)
(* Mistake: "none"; "swapped" hands out the sum of the other side; "both"  *)
(* hands out both sums of one level; "tail" forgets a leaf in the          *)
(* correction.                                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS MaxDepth, Mistake, BadLevel
VARIABLES depth, place, level, known
vars == <<depth, place, level, known>>

\* a node is the sequence of turns from the root
Nodes(d) == [1..d -> {0, 1}]
Init == /\ depth \in 1..MaxDepth /\ place \in Nodes(depth) /\ level = 0 /\ known = {}
Side(d, s) == {n \in Nodes(d) : n[d] = s}
\* the choice of level d: the side on which the place is not
Choice(d) == 1 - place[d]
Sums(d) == IF Mistake = "swapped" /\ d = BadLevel THEN {Side(d, place[d])}
           ELSE IF Mistake = "both" /\ d = BadLevel THEN {Side(d, 0), Side(d, 1)}
           ELSE {Side(d, Choice(d))}
Children(k) == {Append(n, s) : n \in k, s \in {0, 1}}
RECURSIVE Solve(_, _)
Solve(k, sums) == LET new == UNION {s \ k : s \in {t \in sums : Cardinality(t \ k) = 1}}
                  IN  IF new = {} THEN k ELSE Solve(k \cup new, sums)
Down == /\ level < depth /\ level' = level + 1
        /\ known' = Solve(Children(known), Sums(level + 1))
        /\ UNCHANGED <<depth, place>>
Spec == Init /\ [][Down]_vars

Prefix(d) == [i \in 1..d |-> place[i]]
AllButOne == level > 0 => known = Nodes(level) \ {Prefix(level)}
\* the correction is a sum of leaves and delta; adding the known leaves leaves him with that of his place and delta
Correction == IF Mistake = "tail" THEN Nodes(depth) \ {[i \in 1..depth |-> 1]} ELSE Nodes(depth)
MissingLeaf == level = depth => (Correction \ known) \cup (known \ Correction) = {Prefix(depth)}
==============================================================================
