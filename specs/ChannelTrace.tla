---------------------------- MODULE ChannelTrace ----------------------------
(***************************************************************************)
(* Decides recorded uses of the communication agents.  A channel direction *)
(* is a byte stream: sending appends the bytes a typed message stands for, *)
(* receiving takes the next bytes and reads them as the asked-for type.    *)
(* Bits are packed eight to a byte, the first one in the highest place.    *)
(* "cut": the sender has ended the connection; what arrived before can be  *)
(* received, what did not arrive completely is an error, for ever.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, q, sent, got, cut, made, bulk
vars == <<l, cfg, q, sent, got, cut, made, bulk>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Bits == {1, 7}
Width(t) == CASE t \in {2, 5} -> 8 [] t = 3 -> 4 [] t = 4 -> 2 [] OTHER -> 1
BitAt(bits, i) == IF i <= Len(bits) THEN bits[i] ELSE 0
Packed(bits) == [i \in 1..((Len(bits) + 7) \div 8) |->
    128 * BitAt(bits, 8*i - 7) + 64 * BitAt(bits, 8*i - 6) + 32 * BitAt(bits, 8*i - 5) + 16 * BitAt(bits, 8*i - 4)
    + 8 * BitAt(bits, 8*i - 3) + 4 * BitAt(bits, 8*i - 2) + 2 * BitAt(bits, 8*i - 1) + BitAt(bits, 8*i)]
P2 == <<128, 64, 32, 16, 8, 4, 2, 1>>
Unpacked(bytes, n) == [i \in 1..n |-> (bytes[(i + 7) \div 8] \div P2[((i - 1) % 8) + 1]) % 2]
Wire(e) == IF e.type \in Bits THEN Packed(e.bits) ELSE e.bytes
Need(type, n) == IF type \in Bits THEN (n + 7) \div 8 ELSE n * Width(type)

Out == <<E.me, E.peer, E.ch>>      \* the direction this party sends on
In == <<E.peer, E.me, E.ch>>
Avail == Get(q, In, << >>)
SumN(s) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE s[k][1] + F(k - 1) IN F(Len(s))

Init == l = 1 /\ cfg = [kind |-> "-", n |-> 0] /\ q = << >> /\ sent = << >> /\ got = << >> /\ cut = << >> /\ made = << >> /\ bulk = << >>
Begin == Is("begin") /\ cfg' = [kind |-> E.kind, n |-> E.n]
         /\ q' = << >> /\ sent' = << >> /\ got' = << >> /\ cut' = << >> /\ made' = << >> /\ bulk' = << >>

Send == /\ Is("send")
        /\ q' = Put(q, Out, Get(q, Out, << >>) \o Wire(E))
        /\ sent' = Put(sent, Out, Get(sent, Out, 0) + Len(Wire(E)))
        /\ UNCHANGED <<cfg, got, cut, made, bulk>>

\* 9: a receive failed before
Alive == Get(cut, In, -1) # 9
Recv == /\ Is("recv")
        /\ LET k == Need(E.type, E.len)
           IN /\ Len(Avail) >= k
              /\ Alive \/ k = 0
              /\ IF E.type \in Bits THEN E.bits = Unpacked(SubSeq(Avail, 1, k), E.len)
                 ELSE E.bytes = SubSeq(Avail, 1, k)
              /\ q' = Put(q, In, SubSeq(Avail, k + 1, Len(Avail)))
              /\ got' = Put(got, In, Get(got, In, 0) + k)
        /\ UNCHANGED <<cfg, sent, cut, made, bulk>>

Cut == Is("cut") /\ cut' = Put(cut, <<E.peer, E.me, E.ch>>, E.how) /\ UNCHANGED <<cfg, q, sent, got, made, bulk>>
\* an error needs a reason: not enough bytes before the end, or bytes lost in a reset
RecvFail == /\ Is("recvfail")
            /\ Get(cut, In, -1) # -1
            /\ \/ Get(cut, In, -1) \in {2, 9}
               \/ Len(Avail) + SumN(Get(bulk, In, << >>)) < Need(E.type, E.len)
            /\ cut' = Put(cut, In, 9) /\ q' = Put(q, In, << >>) /\ bulk' = Put(bulk, In, << >>)
            /\ UNCHANGED <<cfg, sent, got, made>>

\* Much data at once is known by its length and digest; the receiver tells the same pieces.
BulkSend == /\ Is("bulksend")
            /\ Get(q, Out, << >>) = << >>
            /\ bulk' = Put(bulk, Out, Append(Get(bulk, Out, << >>), <<E.n, E.d>>))
            /\ sent' = Put(sent, Out, Get(sent, Out, 0) + E.n)
            /\ UNCHANGED <<cfg, q, got, cut, made>>
BulkRecv == /\ Is("bulkrecv")
            /\ Alive
            /\ Get(bulk, In, << >>) # << >> /\ Head(bulk[In]) = <<E.n, E.d>>
            /\ bulk' = Put(bulk, In, Tail(bulk[In]))
            /\ got' = Put(got, In, Get(got, In, 0) + E.n)
            /\ UNCHANGED <<cfg, q, sent, cut, made>>
\* the first bytes may still be taken by the network; soon the error shows, and stays
SendBroken == /\ Is("sendbroken")
              /\ Get(cut, In, -1) # -1
              /\ E.ok = 1 => E.i <= 2
              /\ UNCHANGED <<cfg, q, sent, got, cut, made, bulk>>

Stats == /\ Is("stats")
         /\ E.sent = Get(sent, Out, 0) /\ E.received = Get(got, In, 0)
         /\ UNCHANGED <<cfg, q, sent, got, cut, made, bulk>>

\* ---- factories: the k-th agents of two parties for each other belong together
Create == /\ Is("create")
          /\ E.k = Get(made, <<E.me, E.peer>>, 0)
          /\ made' = Put(made, <<E.me, E.peer>>, E.k + 1)
          /\ UNCHANGED <<cfg, q, sent, got, cut, bulk>>
Refuse == Is("refuse") /\ E.ok = 1 /\ UNCHANGED <<cfg, q, sent, got, cut, made, bulk>>
Token == /\ Is("token")
         /\ E.k < Get(made, <<E.me, E.peer>>, 0)
         /\ E.tok = <<E.peer, E.me, E.k>>
         /\ UNCHANGED <<cfg, q, sent, got, cut, made, bulk>>

\* ---- TLS: an agent talks exactly to the peer its authority vouches for, by TLS 1.3, in private.
\* The other agent kind ("dir") knows no authority and accepts every TLS 1.3 server.
Vouched == /\ E.ca \in {"good", "evil"} /\ E.issuer = E.ca
           /\ E.time = "valid" /\ E.name = E.addr
Handshake ==
    /\ Is("handshake")
    /\ LET right == /\ E.tls = 1 /\ E.tls13 = 1
                    /\ \/ E.server = 1 /\ (E.peerca = "" \/ E.peerca = E.issuer)
                       \/ E.server = 0 /\ (E.dir = 1 \/ Vouched)
       IN /\ E.ok = (IF right THEN 1 ELSE 0)
          /\ E.echo = E.ok
          /\ E.leak = 0
    /\ UNCHANGED <<cfg, q, sent, got, cut, made, bulk>>

Symmetric == \A k \in DOMAIN made : Get(made, <<k[2], k[1]>>, 0) = made[k]
End == Is("end") /\ Symmetric /\ UNCHANGED <<cfg, q, sent, got, cut, made, bulk>>

Next == BulkSend \/ BulkRecv \/ Begin \/ Send \/ Recv \/ Cut \/ RecvFail \/ SendBroken \/ Stats \/ Create \/ Refuse \/ Token \/ Handshake \/ End
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter) \o ": " \o ToString(Trace[TLCGet("stats").diameter])) /\ FALSE
=============================================================================
