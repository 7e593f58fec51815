---------------------------- MODULE EngineTrace ----------------------------
(***************************************************************************)
(* The secret-share engines of all parties, operation by operation.  A     *)
(* register holds one value (bits or 64-bit words) and every party's share *)
(* of it.  Shares of a secret combine to its value; of a public one every  *)
(* party holds the value.                                                  *)
(* With recorded tuples (rec = 1) the state also follows how each          *)
(* multiplication is done: one fresh tuple per element, the parties open   *)
(* operand + tuple share and nothing else (Beaver).                        *)
(***************************************************************************)
EXTENDS Circuit, TLC, Json, IOUtils, FiniteSets, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, regs, pend,
          given, ngiven   \* the masks handed out for inputs, and their number
vars == <<l, cfg, regs, pend, given, ngiven>>

E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
P == 1..cfg.n

Sum(k, s) == IF k = "b" THEN XorSeq(s, 1) ELSE WSumSeq(s, 8, 1)
Joined(k, sh) == [i \in 1..Len(sh[1]) |-> Sum(k, [p \in P |-> sh[p][i]])]
Shape(sh, len) == Len(sh) = cfg.n /\ \A p \in P : Len(sh[p]) = len
ZeroOf(k) == IF k = "b" THEN 0 ELSE WZero(8)
Reg(k, pub, val, sh) == [k |-> k, pub |-> pub, val |-> val, sh |-> sh]
\* a register as recorded: the shares stand for val
Good(k, pub, val, sh) ==
    /\ Shape(sh, Len(val))
    /\ IF pub THEN \A p \in P : sh[p] = val ELSE Joined(k, sh) = val
\* nothing is sent (with the system's own tuple generators there is background traffic)
Quiet == cfg.rec = 1 => \A p \in P : \A q \in P : E.sent[p][q] = 0

Init == l = 1 /\ cfg = [n |-> 0] /\ regs = << >> /\ pend = << >> /\ given = {} /\ ngiven = 0
Begin == Is("begin") /\ cfg' = E /\ regs' = << >> /\ pend' = << >> /\ given' = {} /\ ngiven' = 0

In == /\ Is("in") /\ UNCHANGED <<cfg, pend>>
      /\ Good(E.k, FALSE, E.val, E.sh)
      /\ regs' = Append(regs, Reg(E.k, FALSE, E.val, E.sh))
      \* split afresh: no party's share (64 bits of it) is the value, another's or an earlier one
      /\ IF E.k = "a"
         THEN /\ given' = given \cup UNION {{E.sh[p][i] : i \in 1..Len(E.val)} : p \in P}
              /\ ngiven' = ngiven + cfg.n * Len(E.val)
              /\ \A i \in 1..Len(E.val), p \in P : E.sh[p][i] # E.val[i]
         ELSE IF Len(E.val) >= 64
         THEN /\ given' = given \cup {SubSeq(E.sh[p], 1, 64) : p \in P}
              /\ ngiven' = ngiven + cfg.n
              /\ \A p \in P : E.sh[p] # E.val
         ELSE UNCHANGED <<given, ngiven>>
      /\ Cardinality(given') = ngiven'
Pub == /\ Is("pub") /\ UNCHANGED <<cfg, pend>>
       /\ regs' = Append(regs, Reg(E.k, TRUE, E.val, [p \in P |-> E.val]))

Plain(op) == CASE op \in {"symnot", "asymnot"} -> "not" [] op = "symneg" -> "neg"
               [] op \in {"symxor", "asymxor"} -> "xor" [] op \in {"symplus", "asymplus"} -> "plus"
               [] op = "freeand" -> "and" [] op = "freemult" -> "mult"
Loc == /\ Is("loc") /\ UNCHANGED <<cfg, pend>> /\ Quiet
       /\ LET x == regs[E.ins[1]]
              y == regs[E.ins[Len(E.ins)]]
              pub == x.pub /\ y.pub
              v == GateValue(Plain(E.op), x.val, y.val)
          IN /\ Good(x.k, pub, v, E.sh)
             /\ regs' = Append(regs, Reg(x.k, pub, v, E.sh))

Sched == /\ Is("sched") /\ UNCHANGED <<cfg, regs>> /\ Quiet
         /\ pend' = Append(pend, [kind |-> E.kind, ins |-> E.ins])

KindOf(kind) == IF kind \in {"mult", "bmult"} THEN "a" ELSE "b"
\* values of an operation: one per right operand
Values(s) == LET x == regs[s.ins[1]]
             IN [j \in 1..(Len(s.ins) - 1) |->
                   GateValue(IF x.k = "b" THEN "and" ELSE "mult", x.val, regs[s.ins[j + 1]].val)]
\* the recorded outputs of one operation: res[p][j]
ResultsGood(s, res) ==
    LET vs == Values(s)
    IN \A p \in P : Len(res[p]) = Len(vs)
       /\ \A j \in 1..Len(vs) : Good(KindOf(s.kind), FALSE, vs[j], [q \in P |-> res[q][j]])
NewRegs(s, res) == [j \in 1..(Len(s.ins) - 1) |-> Reg(KindOf(s.kind), FALSE, Values(s)[j], [q \in P |-> res[q][j]])]

-----------------------------------------------------------------------------
\* the Beaver step, for one party's share of the operands and tuples
OfKind(ops, kinds) == SelectSeq(ops, LAMBDA s : s.kind \in kinds)
Size(s) == Len(regs[s.ins[1]].val)
Pairs(s, p) == [i \in 1..Size(s) |-> <<regs[s.ins[1]].sh[p][i], regs[s.ins[2]].sh[p][i]>>]
\* operand pairs in the order they are opened: single operations first, then batches
NormalPairs(ops, p) ==
    LET a == OfKind(ops, {"and"})
        b == OfKind(ops, {"band"})
    IN Concat([i \in 1..Len(a) |-> Pairs(a[i], p)], 1) \o Concat([i \in 1..Len(b) |-> Pairs(b[i], p)], 1)
IntPairs(ops, p) ==
    LET a == OfKind(ops, {"mult"})
        b == OfKind(ops, {"bmult"})
    IN Concat([i \in 1..Len(a) |-> Pairs(a[i], p)], 1) \o Concat([i \in 1..Len(b) |-> Pairs(b[i], p)], 1)
\* composite operations, one group (left bit, right bits) per element
Groups(s, p) == [i \in 1..Size(s) |-> <<regs[s.ins[1]].sh[p][i], [j \in 1..(Len(s.ins) - 1) |-> regs[s.ins[j + 1]].sh[p][i]]>>]
CompGroups(ops, p) ==
    LET a == OfKind(ops, {"cand"})
        b == OfKind(ops, {"bcand"})
    IN Concat([i \in 1..Len(a) |-> Groups(a[i], p)], 1) \o Concat([i \in 1..Len(b) |-> Groups(b[i], p)], 1)
\* without composite tuples each member of a group takes a tuple of its own
CompPairs(ops, p) ==
    LET a == OfKind(ops, {"cand"})
        b == OfKind(ops, {"bcand"})
        Split(s) == Concat([j \in 1..(Len(s.ins) - 1) |->
                       [i \in 1..Size(s) |-> <<regs[s.ins[1]].sh[p][i], regs[s.ins[j + 1]].sh[p][i]>>]], 1)
    IN Concat([i \in 1..Len(a) |-> Split(a[i])], 1) \o Concat([i \in 1..Len(b) |-> Split(b[i])], 1)

Masked(pairs, tuples) == Concat([i \in 1..Len(pairs) |-> <<BXor(pairs[i][1], tuples[i][1]), BXor(pairs[i][2], tuples[i][2])>>], 1)
MaskedInt(pairs, tuples) == Concat([i \in 1..Len(pairs) |-> <<WAdd(pairs[i][1], tuples[i][1]), WAdd(pairs[i][2], tuples[i][2])>>], 1)
SizesOf(groups) == {Len(groups[i][2]) : i \in 1..Len(groups)}
\* each group takes the next unused composite tuple of its size
MaskedGroups(groups, tuples) ==
    LET sizes == SizesOf(groups)
        rest == [z \in sizes |-> SelectSeq(tuples, LAMBDA t : t[1] = z)]
        Take(acc, g) == LET z == Len(g[2])
                            t == acc.rest[z][acc.used[z] + 1]
                        IN [rest |-> acc.rest, used |-> [acc.used EXCEPT ![z] = @ + 1],
                            out |-> Append(acc.out, <<BXor(g[1], t[2])>> \o Map2(BXor, g[2], t[3]))]
        done == FoldLeft(Take, [rest |-> TLCEval(rest), used |-> [z \in sizes |-> 0], out |-> << >>], groups)
    IN Concat(done.out, 1)

\* exactly one fresh tuple per element, and only masked operands are opened
Masking(ops) ==
    cfg.rec = 1 =>
    \A p \in P :
        \* (bound by a quantifier so that TLC evaluates each once)
        \E pairs \in {TLCEval(IF cfg.comp = 1 THEN NormalPairs(ops, p) ELSE NormalPairs(ops, p) \o CompPairs(ops, p))} :
        \E groups \in {TLCEval(IF cfg.comp = 1 THEN CompGroups(ops, p) ELSE << >>)} :
        \E ints \in {TLCEval(IntPairs(ops, p))} :
           /\ Len(E.tb[p]) = Len(pairs)
           /\ Len(E.ti[p]) = Len(ints)
           /\ Len(E.tc[p]) = Len(groups)
           /\ \A z \in SizesOf(groups) :
                Cardinality({i \in 1..Len(groups) : Len(groups[i][2]) = z}) = Cardinality({i \in 1..Len(E.tc[p]) : E.tc[p][i][1] = z})
           /\ E.ob[p] = Masked(pairs, E.tb[p]) \o MaskedGroups(groups, E.tc[p])
           /\ E.oa[p] = MaskedInt(ints, E.ti[p])
\* every party sends every other the same amount, and nothing if nothing is opened
Balanced(ops) == cfg.rec = 1 =>
                 /\ \A p, q \in P : E.sent[p][q] = E.sent[q][p]
                 /\ ops = << >> => Quiet
-----------------------------------------------------------------------------

Exec == /\ Is("exec") /\ UNCHANGED cfg
        /\ Len(E.res) = Len(pend)
        /\ \A i \in 1..Len(pend) : ResultsGood(pend[i], E.res[i])
        /\ Masking(pend) /\ Balanced(pend)
        /\ regs' = regs \o Concat([i \in 1..Len(pend) |-> NewRegs(pend[i], E.res[i])], 1)
        /\ pend' = << >>

\* done at once, leaving what is scheduled alone
Imm == /\ Is("imm") /\ UNCHANGED <<cfg, pend>>
       /\ LET s == [kind |-> E.kind, ins |-> E.ins]
              single == [kind |-> IF E.kind = "band" THEN "and" ELSE "mult", ins |-> E.ins]
              res == [p \in P |-> <<E.sh[p]>>]
          IN /\ ResultsGood(s, res) /\ Masking(<<single>>) /\ Balanced(<<s>>)
             /\ regs' = regs \o NewRegs(s, res)

\* only the shares go to the recipient; everybody else gets and learns nothing
Rev == /\ Is("rev") /\ UNCHANGED <<cfg, regs, pend>>
       /\ LET v == IF E.reg = 0 THEN << >> ELSE regs[E.reg].val
          IN /\ Shape(E.out, Len(v))
             /\ \A p \in P : E.out[p] = (IF p = E.id + 1 THEN v ELSE [i \in 1..Len(v) |-> ZeroOf(E.k)])
             /\ cfg.rec = 1 => \A p, q \in P : (E.sent[p][q] > 0) = (v # << >> /\ q = E.id + 1 /\ p # q)
             /\ cfg.rec = 1 => \A p, q \in P : E.sent[p][q] <= (IF E.k = "b" THEN (Len(v) + 7) \div 8 ELSE 8 * Len(v))

Bad == /\ Is("bad") /\ UNCHANGED <<cfg, regs, pend>> /\ Quiet
       /\ \A p \in P : E.threw[p] = 1
End == Is("end") /\ UNCHANGED <<cfg, regs, pend>>

Step == Pub \/ Loc \/ Sched \/ Exec \/ Imm \/ Rev \/ Bad \/ End
Next == Begin \/ In \/ (Step /\ UNCHANGED <<given, ngiven>>)
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter) \o ": " \o ToString(Trace[TLCGet("stats").diameter])) /\ FALSE
=============================================================================
