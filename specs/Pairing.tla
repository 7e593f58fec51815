------------------------------ MODULE Pairing ------------------------------
(***************************************************************************)
(* How socket factories pair agents.  For every pair of parties the        *)
(* smaller one serves: it listens on some free port, tells the port over   *)
(* the pair's first connection, and accepts one client; the larger one     *)
(* takes the next port number and connects to it.  Ports are shared by all *)
(* pairs and become free after the accept.  All parties create their       *)
(* agents in an order agreed for all pairs (chosen by Init).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, Ports
Parties == 0..(N - 1)
Pairs == {<<a, b>> \in Parties \X Parties : a < b}
VARIABLES order, at, st, listen, msgs, joined
vars == <<order, at, st, listen, msgs, joined>>
\* every order in which each pair occurs K times
Orders == {o \in [1..(K * Cardinality(Pairs)) -> Pairs] : \A p \in Pairs : Cardinality({i \in DOMAIN o : o[i] = p}) = K}
Init == /\ order \in Orders
        /\ at = [p \in Parties |-> 1] /\ st = [p \in Parties |-> "idle"]
        /\ listen = [x \in Ports |-> << >>]            \* << >> or <<server, client, k>>
        /\ msgs = [p \in Pairs |-> << >>] /\ joined = {}
\* which agent (pair, number) party p is creating
Mine(p, i) == p \in {order[i][1], order[i][2]}
Nr(i) == Cardinality({j \in 1..i : order[j] = order[i]})
Skip(p) == /\ at[p] <= Len(order) /\ ~Mine(p, at[p]) /\ at' = [at EXCEPT ![p] = @ + 1] /\ UNCHANGED <<order, st, listen, msgs, joined>>
Serving(p) == at[p] <= Len(order) /\ Mine(p, at[p]) /\ order[at[p]][1] = p
Bind(p, x) == /\ Serving(p) /\ st[p] = "idle" /\ listen[x] = << >>
              /\ listen' = [listen EXCEPT ![x] = <<p, Nr(at[p])>>]
              /\ msgs' = [msgs EXCEPT ![order[at[p]]] = Append(@, x)]
              /\ st' = [st EXCEPT ![p] = "accept"] /\ UNCHANGED <<order, at, joined>>
Connect(p) == /\ at[p] <= Len(order) /\ Mine(p, at[p]) /\ order[at[p]][2] = p
              /\ msgs[order[at[p]]] # << >>
              /\ LET x == Head(msgs[order[at[p]]])
                     s == listen[x][1]
                 IN /\ listen[x] # << >> /\ st[s] = "accept"
                    /\ joined' = joined \cup {<<s, listen[x][2], p, Nr(at[p]), order[at[s]], order[at[p]]>>}
                    /\ listen' = [listen EXCEPT ![x] = << >>]
                    /\ st' = [st EXCEPT ![s] = "idle"]
                    /\ at' = [at EXCEPT ![s] = @ + 1, ![p] = @ + 1]
              /\ msgs' = [msgs EXCEPT ![order[at[p]]] = Tail(@)]
              /\ UNCHANGED order
Done == (\A p \in Parties : at[p] > Len(order)) /\ UNCHANGED vars
Next == \E p \in Parties : Skip(p) \/ (\E x \in Ports : Bind(p, x)) \/ Connect(p) \/ Done
Spec == Init /\ [][Next]_vars
\* connected agents carry the same number in the same pair
Paired == \A j \in joined : j[2] = j[4] /\ j[5] = j[6] /\ <<j[1], j[3]>> = j[5]
Complete == (\A p \in Parties : at[p] > Len(order)) => Cardinality(joined) = Len(order)
=============================================================================
