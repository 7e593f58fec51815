--------------------------- MODULE FrontBitTrace ---------------------------
(***************************************************************************)
(* Decides recorded programs over the frontend's bits and bit strings.     *)
(* The memory maps a variable (slot) to its cells; a cell is a wire (0 for *)
(* none) and what the wire stands for: a sequence of bits, one per element *)
(* of the batch.  Operators make new wires, copies share them, and the     *)
(* wires alive are exactly those some variable refers to.                  *)
(***************************************************************************)
EXTENDS Circuit, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, mem, fresh
vars == <<l, cfg, mem, fresh>>

E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

None == [w |-> 0, v |-> << >>]
SecBits == 0..3
PubBits == 10..13
SecStrs == 20..22
PubStrs == 30..32
Slots == SecBits \cup PubBits \cup SecStrs \cup PubStrs
IsStr(s) == s >= 20
Secret(s) == s \in SecBits \cup SecStrs
Blank(s) == IF IsStr(s) THEN << >> ELSE <<None>>

Vals(s) == [i \in 1..Len(mem[s]) |-> mem[s][i].v]
New(base, vs) == [i \in 1..Len(vs) |-> [w |-> base + i, v |-> vs[i]]]
Store(d, vs) == mem' = [mem EXCEPT ![d] = New(fresh, vs)] /\ fresh' = fresh + Len(vs)

BOr(x, y) == x + y - x * y
CellOp(op, x, y) == CASE op = "and" -> Map2(BAnd, x, y)
                      [] op = "xor" -> Map2(BXor, x, y)
                      [] op = "or" -> Map2(BOr, x, y)
XorShares(shares, i) == [k \in 1..Len(shares[1][i]) |-> XorSeq([p \in 1..Len(shares) |-> shares[p][i][k]], 1)]
JoinedCells(shares) == [i \in 1..Len(shares[1]) |-> XorShares(shares, i)]

Init == /\ l = 1 /\ cfg = [n |-> 0, sched |-> "-", batch |-> 0, ev |-> "begin"]
        /\ mem = [s \in Slots |-> Blank(s)] /\ fresh = 0

Begin == Is("begin") /\ cfg' = E /\ mem' = [s \in Slots |-> Blank(s)] /\ fresh' = 0

In == Is("in") /\ Store(E.d, IF E.form # "share" THEN E.vals
                             ELSE IF cfg.n = 1 THEN E.shares[1] ELSE JoinedCells(E.shares))
NotOp == Is("not") /\ Store(E.d, [i \in 1..Len(mem[E.a]) |-> Map1(BNot, mem[E.a][i].v)])
BinOp == /\ Is("bin") /\ Len(mem[E.a]) = Len(mem[E.b])
         /\ Store(E.d, [i \in 1..Len(mem[E.a]) |-> CellOp(E.op, mem[E.a][i].v, mem[E.b][i].v)])
VecAnd == /\ Is("vec")
          /\ LET k == Len(E.ds)
             IN /\ mem' = [s \in Slots |->
                             IF \E j \in 1..k : E.ds[j] = s
                             THEN LET j == CHOOSE j \in 1..k : E.ds[j] = s
                                  IN << [w |-> fresh + j, v |-> Map2(BAnd, mem[E.a][1].v, mem[E.bs[j]][1].v)] >>
                             ELSE mem[s]]
                /\ fresh' = fresh + k
Mux == /\ Is("mux")
       /\ LET c == mem[E.c][1].v
          IN Store(E.d, [i \in 1..Len(mem[E.a]) |->
                [k \in 1..Len(mem[E.a][i].v) |-> IF c[k] = 1 THEN mem[E.b][i].v[k] ELSE mem[E.a][i].v[k]]])
Copy == Is("copy") /\ mem' = [mem EXCEPT ![E.d] = mem[E.a]] /\ UNCHANGED fresh
Move == Is("move") /\ mem' = (IF E.d = E.a THEN mem ELSE [mem EXCEPT ![E.d] = mem[E.a], ![E.a] = Blank(E.a)]) /\ UNCHANGED fresh
Swap == Is("swap") /\ mem' = [mem EXCEPT ![E.a] = mem[E.b], ![E.b] = mem[E.a]] /\ UNCHANGED fresh
Drop == Is("drop") /\ mem' = [mem EXCEPT ![E.d] = Blank(E.d)] /\ UNCHANGED fresh
ElGet == Is("elget") /\ mem' = [mem EXCEPT ![E.d] = <<mem[E.a][E.idx]>>] /\ UNCHANGED fresh
ElSet == Is("elset") /\ mem' = [mem EXCEPT ![E.d][E.idx] = mem[E.a][1]] /\ UNCHANGED fresh
Resize == /\ Is("resize") /\ UNCHANGED fresh
          /\ mem' = [mem EXCEPT ![E.d] = [i \in 1..E.idx |-> IF i <= Len(mem[E.d]) THEN mem[E.d][i] ELSE None]]
Reshare == Is("reshare") /\ Store(E.d, Vals(E.a))
BatchUp == /\ Is("batchup")
           /\ Store(E.d, [i \in 1..Len(mem[E.a]) |->
                 mem[E.a][i].v \o Concat([j \in 1..Len(E.bs) |-> mem[E.bs[j]][i].v], 1)])
Unbatch == /\ Is("unbatch")
           /\ LET cells == Len(mem[E.a])
                  k == Len(E.ds)
              IN /\ mem' = [s \in Slots |->
                              IF \E j \in 1..k : E.ds[j] = s
                              THEN LET j == CHOOSE j \in 1..k : E.ds[j] = s
                                   IN [i \in 1..cells |-> [w |-> fresh + (i - 1) * k + j, v |-> Piece(mem[E.a][i].v, E.cut, j)]]
                              ELSE mem[s]]
                 /\ fresh' = fresh + k * cells

Keep == UNCHANGED <<mem, fresh>>
BSize == Is("bsize") /\ Keep /\ \A p \in 1..cfg.n : E.out[p] = Len(mem[E.a][1].v)
Mismatch == /\ Is("mismatch") /\ Keep /\ Len(mem[E.a]) # Len(mem[E.b])
            /\ \A p \in 1..cfg.n : E.out[p] = 1
Ragged == /\ Is("ragged") /\ Keep /\ \E i \in 1..Len(E.vals) : Len(E.vals[i]) # Len(E.vals[1])
          /\ \A p \in 1..cfg.n : E.out[p] = 1
Get == Is("get") /\ Keep /\ \A p \in 1..cfg.n : E.out[p] = Vals(E.a)
Open == /\ Is("open") /\ Keep
        /\ \A p \in 1..cfg.n :
              IF p = E.party + 1 THEN E.out[p] = Vals(E.a)
              ELSE cfg.sched \in {"eager", "lazy"} =>
                   E.out[p] = [i \in 1..Len(mem[E.a]) |-> [k \in 1..Len(mem[E.a][i].v) |-> 0]]
Share == /\ Is("share") /\ Keep
         /\ \A p \in 1..cfg.n : /\ Len(E.out[p]) = Len(mem[E.a])
                                /\ \A i \in 1..Len(mem[E.a]) : Len(E.out[p][i]) = Len(mem[E.a][i].v)
         /\ JoinedCells(E.out) = Vals(E.a)

AliveWires == UNION {{mem[s][i].w : i \in 1..Len(mem[s])} : s \in Slots} \ {0}
Live == Is("live") /\ Keep /\ (cfg.sched # "lazy" => \A p \in 1..cfg.n : E.out[p] = Cardinality(AliveWires))
End == Is("end") /\ Keep

Step == In \/ NotOp \/ BinOp \/ VecAnd \/ Mux \/ Copy \/ Move \/ Swap \/ Drop \/ ElGet \/ ElSet \/ Resize \/ Reshare
        \/ BatchUp \/ Unbatch \/ BSize \/ Mismatch \/ Ragged \/ Get \/ Open \/ Share \/ Live \/ End
Next == Begin \/ (Step /\ UNCHANGED cfg)
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter) \o ": " \o ToString(Trace[TLCGet("stats").diameter])) /\ FALSE
=============================================================================
