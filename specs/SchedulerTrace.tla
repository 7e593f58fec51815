--------------------------- MODULE SchedulerTrace ---------------------------
(***************************************************************************)
(* Decides recorded runs of a scheduler.  The state holds, for every wire  *)
(* of the program, its plaintext meaning, whether it is secret, public or  *)
(* opened to one party, and its reference count; plus the gate counters.   *)
(* Each recorded call is one action; the results the code returned at each *)
(* party are compared with what the state says they must be.               *)
(***************************************************************************)
EXTENDS Circuit, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, wires, nonfree, free,
          inner,  \* wires of a chain of gates, created and released on the way
          told    \* whether the engine was given up, and the traffic last reported
vars == <<l, cfg, wires, nonfree, free, inner, told>>

E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Secure == cfg.sched \in {"eager", "lazy"}
Lazy == cfg.sched = "lazy"

Wire(k, batch, vis, to, vals) ==
    [k |-> k, batch |-> batch, vis |-> vis, to |-> to, vals |-> vals, refs |-> 1]

AddWires(ws) == wires' = wires \o ws

Sum(k, s) == IF k = "b" THEN XorSeq(s, 1) ELSE WSumSeq(s, 8, 1)
\* what the parties' shares of a wire stand for, element by element
Joined(k, shares) == [i \in 1..Len(shares[1]) |-> Sum(k, [p \in 1..Len(shares) |-> shares[p][i]])]
ZeroOf(k) == IF k = "b" THEN 0 ELSE WZero(8)
SameShape(shares, len) == Len(shares) = cfg.n /\ \A p \in 1..cfg.n : Len(shares[p]) = len

Untold == [off |-> FALSE, bytes |-> << >>]
Init == l = 1 /\ cfg = [n |-> 0, sched |-> "-", keeper |-> 0, ahead |-> 0, ev |-> "begin"] /\ wires = << >> /\ nonfree = 0 /\ free = 0 /\ inner = 0
        /\ told = Untold

Begin == Is("begin") /\ cfg' = E /\ wires' = << >> /\ nonfree' = 0 /\ free' = 0 /\ inner' = 0
         /\ told' = Untold

Count(op, priv, k) ==
    IF NonFreeGate(op, priv) THEN nonfree' = nonfree + k /\ UNCHANGED free
    ELSE free' = free + k /\ UNCHANGED nonfree

Input == /\ Is("input") /\ UNCHANGED cfg
         /\ LET v == IF E.src # "rec" THEN E.vals
                     ELSE IF cfg.n = 1 THEN E.shares[1] ELSE Joined(E.k, E.shares)
            IN /\ AddWires(<<Wire(E.k, E.batch = 1, IF E.src = "pub" THEN "pub" ELSE "priv", -1, v)>>)
               /\ Count("input", TRUE, Len(v))

Gate == /\ Is("gate") /\ UNCHANGED cfg
        /\ LET x == wires[E.ins[1]]
               y == wires[E.ins[Len(E.ins)]]
               priv == x.vis = "priv" /\ y.vis = "priv"
               v == GateValue(E.op, x.vals, y.vals)
           IN /\ AddWires(<<Wire(x.k, x.batch, IF x.vis = "priv" \/ y.vis = "priv" THEN "priv" ELSE "pub", -1, v)>>)
              /\ Count(E.op, priv, Len(v))

CompositeAnd ==
        /\ Is("cand") /\ UNCHANGED cfg
        /\ LET x == wires[E.ins[1]]
               outs == [i \in 1..(Len(E.ins) - 1) |->
                          LET y == wires[E.ins[i + 1]]
                          IN Wire("b", x.batch, IF x.vis = "priv" \/ y.vis = "priv" THEN "priv" ELSE "pub", -1,
                                  GateValue("and", x.vals, y.vals))]
           IN /\ AddWires(outs)
              /\ Count("and", E.pub = "pp", Len(outs) * Len(x.vals))

NotChain == /\ Is("notchain") /\ UNCHANGED cfg
            /\ LET x == wires[E.ins[1]]
               IN /\ AddWires(<<[x EXCEPT !.vals = IF E.at % 2 = 1 THEN GateValue(E.op, x.vals, x.vals) ELSE x.vals, !.refs = 1]>>)
                  /\ Count(E.op, TRUE, E.count * Len(x.vals))
                  /\ inner' = inner + E.count - 1

BatchUp == /\ Is("batchup") /\ UNCHANGED <<cfg, nonfree, free>>
           /\ LET first == wires[E.ins[1]]
              IN AddWires(<<Wire("b", TRUE, first.vis, -1, Concat([i \in 1..Len(E.ins) |-> wires[E.ins[i]].vals], 1))>>)

Unbatch == /\ Is("unbatch") /\ UNCHANGED <<cfg, nonfree, free>>
           /\ LET x == wires[E["in"]]
              IN AddWires([k \in 1..Len(E.cut) |-> Wire("b", TRUE, x.vis, -1, Piece(x.vals, E.cut, k))])

\* asking for more values than there are is refused by every party
OverCut == /\ Is("overcut") /\ UNCHANGED <<cfg, wires, nonfree, free>>
           /\ SumInts(E.cut, 1) > Len(wires[E["in"]].vals)
           /\ \A p \in 1..Len(E.threw) : E.threw[p] = 1

Open == /\ Is("open") /\ UNCHANGED cfg
        /\ LET x == wires[E["in"]]
           IN /\ AddWires(<<Wire(x.k, x.batch, "open", E.party, x.vals)>>)
              /\ nonfree' = nonfree + Len(x.vals) /\ UNCHANGED free

\* public: everybody sees the value; opened: the recipient sees it, the others see a dummy
Get == /\ Is("get") /\ UNCHANGED <<cfg, wires, nonfree, free>>
       /\ LET x == wires[E.w]
          IN /\ x.refs > 0
             /\ SameShape(E.vals, Len(x.vals))
             /\ \A p \in 1..cfg.n :
                   IF x.vis = "pub" \/ x.to = p - 1 THEN E.vals[p] = x.vals
                   ELSE Secure => E.vals[p] = [i \in 1..Len(x.vals) |-> ZeroOf(x.k)]

Share == /\ Is("share") /\ UNCHANGED <<cfg, wires, nonfree, free>>
         /\ LET x == wires[E.w]
            IN /\ x.refs > 0
               /\ SameShape(E.vals, Len(x.vals))
               /\ Joined(x.k, E.vals) = x.vals

Size == /\ Is("size") /\ UNCHANGED <<cfg, wires, nonfree, free>>
        /\ \A p \in 1..cfg.n : E.vals[p] = Len(wires[E.w].vals)

Inc == Is("inc") /\ wires' = [wires EXCEPT ![E.w].refs = @ + 1] /\ UNCHANGED <<cfg, nonfree, free>>
Dec == Is("dec") /\ wires[E.w].refs > 0 /\ wires' = [wires EXCEPT ![E.w].refs = @ - 1] /\ UNCHANGED <<cfg, nonfree, free>>

Incs == Is("incs") /\ wires[E.w].refs > 0 /\ wires' = [wires EXCEPT ![E.w].refs = @ + E.count] /\ UNCHANGED <<cfg, nonfree, free>>
Decs == Is("decs") /\ wires[E.w].refs > E.count /\ wires' = [wires EXCEPT ![E.w].refs = @ - E.count] /\ UNCHANGED <<cfg, nonfree, free>>

\* what a party is told it sent and received is what went over its connections.  The engine may be
\* given up: neither the values that were worked out nor this account go with it (an engine that
\* makes tuples ahead may still be sending when it goes)
Traffic == /\ Is("traffic") /\ UNCHANGED <<cfg, wires, nonfree, free>>
           /\ \A p \in 1..cfg.n : \A d \in 1..2 :
                IF told.off /\ cfg.ahead = 1
                THEN told.bytes[p][d] <= E.vals[p][d] /\ E.vals[p][d] <= E.vals[p][d + 2]
                ELSE E.vals[p][d] = E.vals[p][d + 2]
           /\ told' = [told EXCEPT !.bytes = E.vals]
EngineOff == Is("engineoff") /\ told' = [told EXCEPT !.off = TRUE] /\ UNCHANGED <<cfg, wires, nonfree, free>>

\* a wire nobody holds is gone
Stale == /\ Is("stale") /\ UNCHANGED <<cfg, wires, nonfree, free>>
         /\ wires[E.w].refs = 0
         /\ \A p \in 1..cfg.n : E.vals[p] = 1

Created == Len(wires) + inner
Released == Cardinality({i \in 1..Len(wires) : wires[i].refs = 0}) + inner
Flushed == l > 1 /\ Trace[l - 1].ev = "flushed"

WStat == /\ Is("wstat") /\ UNCHANGED <<cfg, wires, nonfree, free>>
         /\ \A p \in 1..cfg.n :
              /\ E.vals[p][1] = Created
              /\ IF Lazy /\ ~Flushed THEN E.vals[p][2] <= Released ELSE E.vals[p][2] = Released

GStat == /\ Is("gstat") /\ UNCHANGED <<cfg, wires, nonfree, free>>
         /\ \A p \in 1..cfg.n :
              IF Lazy /\ ~Flushed THEN E.vals[p][1] <= nonfree /\ E.vals[p][2] <= free
              ELSE E.vals[p][1] = nonfree /\ E.vals[p][2] = free

Flush == Is("flushed") /\ UNCHANGED <<cfg, wires, nonfree, free>>
End == Is("end") /\ UNCHANGED <<cfg, wires, nonfree, free>>

Step == Input \/ Gate \/ CompositeAnd \/ BatchUp \/ Unbatch \/ OverCut \/ Open
        \/ Get \/ Share \/ Size \/ Inc \/ Dec \/ Stale \/ WStat \/ GStat \/ Flush \/ End
        \/ Incs \/ Decs
Account == Traffic \/ EngineOff
Next == Begin \/ (Step /\ UNCHANGED <<inner, told>>) \/ (Account /\ UNCHANGED inner) \/ (NotChain /\ UNCHANGED told)
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter) \o ": " \o ToString(Trace[TLCGet("stats").diameter])) /\ FALSE
=============================================================================
