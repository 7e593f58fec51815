----------------------------- MODULE WireStore -----------------------------
(***************************************************************************)
(* Wires live in slots which are counted and used again.  The program      *)
(* holds handles (copies count), queued gates hold the slots of their      *)
(* operands and of their result until they have run.  Whatever the order   *)
(* of creating, copying, dropping, reading and running, a slot which       *)
(* somebody can still read keeps the value of the wire it was given to,    *)
(* and when nobody can, it is free again.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots,            \* number of slots
          MaxWires,         \* wires made in one history
          MaxHandles,
          GatesHold         \* TRUE: as in the code; FALSE: the mistake of not holding the operands

Ids == 1..Slots
VARIABLES refs, cell,       \* per slot: its count and the bit in it
          owner,            \* per slot (ghost): the wire that lives there, 0 for none
          plain,            \* ghost: the meaning of every wire made so far
          handles,          \* how many handles the program has per wire: function wire -> number
          where,            \* ghost: the slot a wire was given
          queue             \* gates that have not run: <<left slot, right slot, result slot, wires>>
vars == <<refs, cell, owner, plain, handles, where, queue>>

Init == /\ refs = [s \in Ids |-> 0] /\ cell = [s \in Ids |-> 0] /\ owner = [s \in Ids |-> 0]
        /\ plain = << >> /\ handles = << >> /\ where = << >> /\ queue = << >>

Held(w) == handles[w] > 0
Live == {w \in 1..Len(plain) : Held(w)}
Total == LET T[i \in 0..Len(handles)] == IF i = 0 THEN 0 ELSE T[i - 1] + handles[i] IN T[Len(handles)]
Room == Len(plain) < MaxWires /\ Total < MaxHandles
\* slots are alike: it is enough to look at the lowest free one
Free == {s \in Ids : refs[s] = 0 /\ \A t \in Ids : refs[t] = 0 => s <= t}

Input == /\ Room
         /\ \E s \in Free, b \in 0..1 :
              /\ refs' = [refs EXCEPT ![s] = 1]
              /\ cell' = [cell EXCEPT ![s] = b]
              /\ owner' = [owner EXCEPT ![s] = Len(plain) + 1]
              /\ plain' = Append(plain, b) /\ handles' = Append(handles, 1) /\ where' = Append(where, s)
         /\ UNCHANGED queue
\* a gate is only queued; its result slot has no value yet
Gate == /\ Room
        /\ \E s \in Free, l, r \in Live :
             LET a == where[l]
                 b == where[r]
                 more == [t \in Ids |-> (IF GatesHold /\ t = a THEN 1 ELSE 0) + (IF GatesHold /\ t = b THEN 1 ELSE 0)
                                        + (IF t = s THEN (IF GatesHold THEN 2 ELSE 1) ELSE 0)]
             IN  /\ refs' = [t \in Ids |-> refs[t] + more[t]]
                 /\ owner' = [owner EXCEPT ![s] = Len(plain) + 1]
                 /\ plain' = Append(plain, plain[l] * plain[r])
                 /\ handles' = Append(handles, 1) /\ where' = Append(where, s)
                 /\ queue' = Append(queue, <<a, b, s, Len(plain) + 1, l, r>>)
        /\ UNCHANGED cell
Copy == /\ Total < MaxHandles
        /\ \E w \in Live : /\ handles' = [handles EXCEPT ![w] = @ + 1]
                           /\ refs' = [refs EXCEPT ![where[w]] = @ + 1]
        /\ UNCHANGED <<cell, owner, plain, where, queue>>
Drop == /\ \E w \in Live : /\ handles' = [handles EXCEPT ![w] = @ - 1]
                           /\ refs' = [refs EXCEPT ![where[w]] = @ - 1]
                           /\ owner' = [owner EXCEPT ![where[w]] = IF refs[where[w]] = 1 THEN 0 ELSE @]
        /\ UNCHANGED <<cell, plain, where, queue>>
\* all that is queued runs, in the order of creation
Run1(q, c) == LET g == q IN [c EXCEPT ![g[3]] = c[g[1]] * c[g[2]]]
Run == /\ queue # << >>
       /\ LET g == queue[1]
              less == [t \in Ids |-> IF GatesHold THEN (IF t = g[1] THEN 1 ELSE 0) + (IF t = g[2] THEN 1 ELSE 0) + (IF t = g[3] THEN 1 ELSE 0) ELSE 0]
          IN  /\ cell' = Run1(g, cell)
              /\ refs' = [t \in Ids |-> refs[t] - less[t]]
              /\ owner' = [t \in Ids |-> IF refs[t] - less[t] = 0 THEN 0 ELSE owner[t]]
       /\ queue' = Tail(queue)
       /\ UNCHANGED <<plain, handles, where>>
Next == Input \/ Gate \/ Copy \/ Drop \/ Run
Spec == Init /\ [][Next]_vars

Pending(w) == \E i \in 1..Len(queue) : queue[i][4] = w
\* what can be read is what was meant
Keeps == \A w \in Live : owner[where[w]] = w /\ (~Pending(w) => cell[where[w]] = plain[w])
\* what a gate will read is still there
Waits == \A i \in 1..Len(queue) : LET g == queue[i]
                                  IN  /\ owner[g[1]] = g[5] /\ owner[g[2]] = g[6] /\ owner[g[3]] = g[4]
                                      /\ \A k \in {5, 6} : Pending(g[k]) \/ cell[where[g[k]]] = plain[g[k]]
\* the counts are the holders, so nothing leaks
Count(s) == LET W == {w \in Live : where[w] = s}
            IN  (IF W = {} THEN 0 ELSE handles[CHOOSE w \in W : TRUE])
                + Cardinality({<<i, k>> \in (1..Len(queue)) \X (1..3) : queue[i][k] = s})
Counts == GatesHold => \A s \in Ids : refs[s] = Count(s)
NoLeak == (Live = {} /\ queue = << >>) => \A s \in Ids : refs[s] = 0
=============================================================================
