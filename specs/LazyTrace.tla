----------------------------- MODULE LazyTrace -----------------------------
(***************************************************************************)
(* When a lazy scheduler talks to the other parties.  The state follows    *)
(* the program: each wire has the level LazyCircuit gives it; a read       *)
(* executes every level up to the wire's.  The exchanges the real scheduler*)
(* asked its engine for are recorded with every call.                      *)
(*   x: multiplications/ANDs, b, a: revealing bits/integers to a party     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, n, wires, first,
          todo    \* exchanges asked for and not yet made: level -> kind -> elements
vars == <<l, n, wires, first, todo>>

E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxLvl(_, _)
MaxLvl(ins, i) == IF i > Len(ins) THEN 0 ELSE Max(wires[ins[i]].lvl, MaxLvl(ins, i + 1))
RECURSIVE SumInts(_, _)
SumInts(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumInts(s, i + 1)

OutLevel(nonfree, in) ==
    LET base == Max(in, first) + (IF nonfree THEN 1 ELSE 0)
    IN IF (base % 2 = 1) = nonfree THEN base ELSE base + 1

\* every party did the same exchanges
Same == \A p \in 2..n : E.log[p] = E.log[1]
Silent == \A p \in 1..n : E.log[p] = << >>

W(lvl, size, k) == [lvl |-> lvl, size |-> size, k |-> k]
AddW(ws) == wires' = wires \o ws
Owe(lvl, kind, size) == todo' = IF size = 0 THEN todo ELSE Append(todo, [lvl |-> lvl, kind |-> kind, size |-> size])
Keep == UNCHANGED <<n, first>>

Init == l = 1 /\ n = 0 /\ wires = << >> /\ first = 0 /\ todo = << >>
Begin == Is("begin") /\ n' = E.n /\ wires' = << >> /\ first' = 0 /\ todo' = << >>

Input == Is("input") /\ Silent /\ Keep /\ AddW(<<W(OutLevel(FALSE, first), Len(E.vals), E.k)>>) /\ UNCHANGED todo
NonFree(op, pub) == op \in {"and", "mult"} /\ pub = "pp"
Gate == /\ Is("gate") /\ Silent /\ Keep
        /\ LET nf == NonFree(E.op, E.pub)
               lvl == OutLevel(nf, MaxLvl(E.ins, 1))
               x == wires[E.ins[1]]
           IN /\ AddW(<<W(lvl, x.size, x.k)>>)
              /\ IF nf THEN Owe(lvl, <<"x", -1>>, x.size) ELSE UNCHANGED todo
Cand == /\ Is("cand") /\ Silent /\ Keep
        /\ LET nf == E.pub = "pp"
               lvl == OutLevel(nf, MaxLvl(E.ins, 1))
               x == wires[E.ins[1]]
               c == Len(E.ins) - 1
           IN /\ AddW([i \in 1..c |-> W(lvl, x.size, x.k)])
              /\ IF nf THEN Owe(lvl, <<"x", -1>>, x.size * c) ELSE UNCHANGED todo
BatchUp == /\ Is("batchup") /\ Silent /\ Keep /\ UNCHANGED todo
           /\ AddW(<<W(OutLevel(FALSE, MaxLvl(E.ins, 1)), SumInts([i \in 1..Len(E.ins) |-> wires[E.ins[i]].size], 1), "b")>>)
Unbatch == /\ Is("unbatch") /\ Silent /\ Keep /\ UNCHANGED todo
           /\ AddW([i \in 1..Len(E.cut) |-> W(OutLevel(FALSE, wires[E["in"]].lvl), E.cut[i], "b")])
Open == /\ Is("open") /\ Silent /\ Keep
        /\ LET x == wires[E["in"]]
               lvl == OutLevel(TRUE, x.lvl)
           IN /\ AddW(<<W(lvl, x.size, x.k)>>)
              /\ Owe(lvl, <<x.k, E.party>>, x.size)

\* what reading a wire of that level makes the parties exchange
Due(lvl) == SelectSeq(todo, LAMBDA t : t.lvl <= lvl)
Kinds(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
DueKinds(d) == {d[i].kind : i \in 1..Len(d)}
LogSum(log, kind) == SumInts([i \in 1..Len(log) |-> IF <<log[i][1], log[i][2]>> = kind THEN log[i][3] ELSE 0], 1)
LogRounds(log, kind) == Cardinality({i \in 1..Len(log) : <<log[i][1], log[i][2]>> = kind})
DueSum(d, kind) == SumInts([i \in 1..Len(d) |-> IF d[i].kind = kind THEN d[i].size ELSE 0], 1)
DueLevels(d, kind) == Cardinality({d[i].lvl : i \in {j \in 1..Len(d) : d[j].kind = kind}})

\* each gate once, and one exchange for all the gates of a level
Force(lvl) ==
    /\ Same
    /\ LET d == Due(lvl)
           log == E.log[1]
       IN /\ Kinds(log) = DueKinds(d)
          /\ \A k \in DueKinds(d) : LogSum(log, k) = DueSum(d, k) /\ LogRounds(log, k) <= DueLevels(d, k)
    /\ todo' = SelectSeq(todo, LAMBDA t : t.lvl > lvl)
    /\ first' = Max(first, lvl + 1)
    /\ UNCHANGED <<n, wires>>
Read == (Is("get") \/ Is("share")) /\ Force(wires[E.w].lvl)

Quiet == /\ (Is("size") \/ Is("inc") \/ Is("dec") \/ Is("flushed") \/ Is("wstat") \/ Is("gstat"))
         /\ Silent /\ UNCHANGED <<n, wires, first, todo>>
End == Is("end") /\ UNCHANGED <<n, wires, first, todo>>
\* the number of gates built and not executed yet stays bounded while a program is only built
Limit == 200000
Bound == /\ Is("bound") /\ UNCHANGED <<n, wires, first, todo>>
         /\ \A p \in 1..n : E.seen[p] = E.seen[1] /\ Len(E.seen[p]) > 0
                            /\ \A i \in 1..Len(E.seen[p]) : E.seen[p][i][1] - E.seen[p][i][2] <= Limit

Next == Begin \/ Input \/ Gate \/ Cand \/ BatchUp \/ Unbatch \/ Open \/ Read \/ Quiet \/ End \/ Bound
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter) \o ": " \o ToString(Trace[TLCGet("stats").diameter])) /\ FALSE
=============================================================================
