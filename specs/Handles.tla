------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* The reference discipline of frontend values: every variable (handle) may *)
(* refer to a wire; copying, assigning, moving and dropping are sequences  *)
(* of increase / decrease / set steps.  A wire whose count falls to zero   *)
(* is released and its number may be used again; touching a released wire  *)
(* is the error.  Aliasing (assignment to itself) is included.             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS H, W
VARIABLES h, count, todo, bad
vars == <<h, count, todo, bad>>

None == 0
Wires == 1..W
Handles == 1..H

Init == h = [k \in Handles |-> None] /\ count = [w \in Wires |-> 0] /\ todo = << >> /\ bad = FALSE

FreeWire(w) == count[w] = 0
Inc(w) == [kind |-> "inc", w |-> w, d |-> 0]
Dec(w) == [kind |-> "dec", w |-> w, d |-> 0]
Set(d, w) == [kind |-> "set", w |-> w, d |-> d]

Idle == todo = << >>
New(d) == /\ Idle
          /\ \E w \in Wires : /\ FreeWire(w)
                              /\ count' = [count EXCEPT ![w] = 1]
                              /\ todo' = <<Dec(h[d]), Set(d, w)>>
          /\ UNCHANGED <<h, bad>>
\* take the new reference before giving the old one back
Copy(d, s) == Idle /\ todo' = <<Inc(h[s]), Dec(h[d]), Set(d, h[s])>> /\ UNCHANGED <<h, count, bad>>
Move(d, s) == /\ Idle /\ UNCHANGED <<h, count, bad>>
              /\ todo' = IF d = s THEN << >> ELSE <<Dec(h[d]), Set(d, h[s]), Set(s, None)>>
Drop(d) == Idle /\ todo' = <<Dec(h[d]), Set(d, None)>> /\ UNCHANGED <<h, count, bad>>
\* an operator reads its operands and makes a new wire
Use(a, b) == /\ Idle /\ UNCHANGED <<h, count, todo>>
             /\ bad' = (bad \/ (h[a] # None /\ count[h[a]] = 0) \/ (h[b] # None /\ count[h[b]] = 0))

Do == /\ ~Idle /\ todo' = Tail(todo)
      /\ LET s == Head(todo)
         IN CASE s.kind = "inc" -> /\ UNCHANGED h
                                   /\ bad' = (bad \/ (s.w # None /\ count[s.w] = 0))
                                   /\ count' = IF s.w = None THEN count ELSE [count EXCEPT ![s.w] = @ + 1]
              [] s.kind = "dec" -> /\ UNCHANGED h
                                   /\ bad' = (bad \/ (s.w # None /\ count[s.w] = 0))
                                   /\ count' = IF s.w = None \/ count[s.w] = 0 THEN count ELSE [count EXCEPT ![s.w] = @ - 1]
              [] s.kind = "set" -> h' = [h EXCEPT ![s.d] = s.w] /\ UNCHANGED <<count, bad>>

Next == \/ Do
        \/ \E d \in Handles : New(d) \/ Drop(d)
        \/ \E d, s \in Handles : Copy(d, s) \/ Move(d, s) \/ Use(d, s)
Spec == Init /\ [][Next]_vars

NeverTouchReleased == ~bad
CountIsHolders == Idle => \A w \in Wires : count[w] = Cardinality({k \in Handles : h[k] = w})
=============================================================================
