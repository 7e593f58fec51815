--------------------------- MODULE ExchangeTrace ---------------------------
(***************************************************************************)
(* Recorded exchanges of real parties: under every interleaving of         *)
(* unbuffered channels they complete (no deadlock), what is received is    *)
(* what was sent, and everybody ends with the right values - also when the *)
(* code itself is run over unbuffered channels (out2).                     *)
(***************************************************************************)
EXTENDS Exchange, Words, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ep
vars == <<ep, progs, pc, off>>
Init == /\ ep \in 1..Len(Trace)
        /\ IF Trace[ep].ev = "run" THEN StartWith(Trace[ep].prog) ELSE StartWith(<< >>)
Step == \E p, q \in Ps : Meet(p, q)
Next == UNCHANGED ep /\ (Step \/ (Finished /\ UNCHANGED xvars))
Spec == Init /\ [][Next]_vars

Sum(a, s) == IF a = 0 THEN XorSeq(s, 1) ELSE WSumSeq(s, 8, 1)
Zero(a) == IF a = 0 THEN 0 ELSE WZero(8)
Parties(r) == 1..r.n
Joined(r, o) == [i \in 1..Len(o.v[1]) |-> Sum(o.a, [p \in Parties(r) |-> o.v[p][i]])]
Want(r, o, p) ==
    CASE o.op \in {"allb", "alla", "recb", "recbb", "reca", "recaa"} -> Joined(r, o)
      [] o.op \in {"inb", "inbb", "ina", "inaa"} -> o.v[o.id + 1]
      [] o.op \in {"oneb", "onea", "openb", "opena"} ->
            IF p = o.id + 1 THEN Joined(r, o) ELSE [i \in 1..Len(o.v[1]) |-> Zero(o.a)]
GoodRun(r) ==
    /\ r.ev = "run"
    /\ \A p \in Parties(r) : r.err[p] = "" /\ r.err2[p] = ""
    /\ \A p \in Parties(r) : Len(r.out[p]) = Len(r.ops) /\ r.out2[p] = r.out[p]
                             /\ \A i \in 1..Len(r.ops) : r.out[p][i] = Want(r, r.ops[i], p)
ResultsRight == GoodRun(Trace[ep])
=============================================================================
