------------------------------- MODULE UdpTrace -------------------------------
(***************************************************************************)
(* Decides recorded uses of unified data processing.                       *)
(*                                                                         *)
(* Direction d carries the rows of party d.  Its owner encrypts batches    *)
(* under a key of the session; the other side keeps, of the rows that      *)
(* arrive, those it asked for.  my[d], peer[d]: whether a session is open  *)
(* at the owner and at the other side; wire[d]: batches under way; got[d]: *)
(* what arrived in this session, index to row.  What is given out must     *)
(* decrypt, with AES in counter mode from the nonce and the index, to the  *)
(* rows asked for in the order asked for.                                  *)
(*                                                                         *)
(* Bytes are in the order of memory; indexes are eight bytes, the least    *)
(* significant first.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Aes, Bitwise

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, my, peer, wire, got, key, res, given   \* given: every session's key handed out so far
vars == <<l, my, peer, wire, got, key, res, given>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

D == E.d + 1
Closed == [open |-> FALSE, width |-> 0, want |-> << >>]
None == << >>
Fresh == /\ my' = <<Closed, Closed>> /\ peer' = <<Closed, Closed>> /\ wire' = << << >>, << >> >>
         /\ got' = << << >>, << >> >> /\ key' = <<None, None>> /\ res' = <<None, None>> /\ UNCHANGED given
Init == /\ l = 1 /\ my = <<Closed, Closed>> /\ peer = <<Closed, Closed>> /\ wire = << << >>, << >> >>
        /\ got = << << >>, << >> >> /\ key = <<None, None>> /\ res = <<None, None>> /\ given = {}
Begin == Is("begin") /\ Fresh

\* ---- numbers of eight bytes
AddMul(a, m, n, b) == \* a * m + n + b modulo 2^64, for small m and n
  LET t0 == a[1] * m + n + b[1]
      t1 == a[2] * m + t0 \div 256 + b[2]
      t2 == a[3] * m + t1 \div 256 + b[3]
      t3 == a[4] * m + t2 \div 256 + b[4]
      t4 == a[5] * m + t3 \div 256 + b[5]
      t5 == a[6] * m + t4 \div 256 + b[6]
      t6 == a[7] * m + t5 \div 256 + b[7]
      t7 == a[8] * m + t6 \div 256 + b[8]
  IN  <<t0 % 256, t1 % 256, t2 % 256, t3 % 256, t4 % 256, t5 % 256, t6 % 256, t7 % 256>>
Nought == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* ---- counter mode: block j of the row with index i is masked with the encryption of nonce + i * blocks + j
Blocks(w) == (w + 15) \div 16
Counter(nonce, i, blocks, j) == AddMul(i, blocks, j, SubSeq(nonce, 1, 8)) \o SubSeq(nonce, 9, 16)
Mask(ks, nonce, i, w) == LET b == Blocks(w)
                             m == [j \in 1..b |-> EncryptWith(ks, Counter(nonce, i, b, j - 1))]
                         IN  [k \in 1..w |-> m[(k - 1) \div 16 + 1][((k - 1) % 16) + 1]]
IsRowOf(ks, nonce, i, ct, row) == Len(ct) = Len(row) /\ LET m == Mask(ks, nonce, i, Len(row))
                                                        IN  \A k \in 1..Len(row) : ct[k] ^^ m[k] = row[k]
IsKey(k) == Len(k) = 11 /\ Schedule(k[1]) = k

\* everything asked for and delivered is there, nothing else is
Right(r, ks) == LET w == r.want
                IN  \A n \in 1..Len(w) :
                      IF w[n] \in DOMAIN r.got
                      THEN r.idx[n] = w[n] /\ IsRowOf(ks, r.nonces[n], w[n], r.cts[n], r.got[w[n]])
                      ELSE r.cts[n] = << >>
Settle(ks, r) == IF ks = None \/ r = None THEN TRUE ELSE Right(r, ks)

Ok(b) == E.ok = (IF b THEN "yes" ELSE "no")
PrepMy == /\ Is("prepMy") /\ UNCHANGED <<peer, wire, got, key, res, given>> /\ Ok(~my[D].open)
          /\ my' = IF E.ok = "yes" THEN [my EXCEPT ![D] = [Closed EXCEPT !.open = TRUE, !.width = E.width]] ELSE my
PrepPeer == /\ Is("prepPeer") /\ UNCHANGED <<my, wire, key, res, given>> /\ Ok(~peer[D].open)
            /\ peer' = IF E.ok = "yes" THEN [peer EXCEPT ![D] = [open |-> TRUE, width |-> E.width, want |-> E.want]] ELSE peer
            /\ got' = IF E.ok = "yes" THEN [got EXCEPT ![D] = << >>] ELSE got
Send == /\ Is("send") /\ UNCHANGED <<my, peer, got, key, res, given>>
        /\ Ok(/\ my[D].open /\ Len(E.rows) > 0 /\ Len(E.idx) = Len(E.rows)
              /\ \A i \in 1..Len(E.rows) : Len(E.rows[i]) = my[D].width)
        /\ wire' = IF E.ok = "yes" THEN [wire EXCEPT ![D] = Append(@, [x \in {E.idx[i] : i \in 1..Len(E.idx)} |-> E.rows[CHOOSE i \in 1..Len(E.idx) : E.idx[i] = x]])]
                   ELSE wire
Recv == /\ Is("recv") /\ UNCHANGED <<my, peer, key, res, given>> /\ Ok(peer[D].open)
        /\ IF E.ok = "yes" THEN wire[D] # << >> /\ got' = [got EXCEPT ![D] = Head(wire[D]) @@ @] /\ wire' = [wire EXCEPT ![D] = Tail(@)]
           ELSE UNCHANGED <<wire, got>>
\* the key and the rows of a session meet when both have been asked for
Key == /\ Is("key") /\ UNCHANGED <<peer, wire, got>> /\ Ok(my[D].open)
       /\ IF E.ok = "no" THEN UNCHANGED <<my, key, res, given>>
          ELSE \* every session has a key of its own
               /\ IsKey(E.key) /\ E.key[1] \notin given /\ given' = given \cup {E.key[1]} /\ my' = [my EXCEPT ![D] = Closed]
               /\ Settle(E.key, res[D])
               /\ key' = [key EXCEPT ![D] = IF res[D] = None THEN E.key ELSE None] /\ res' = [res EXCEPT ![D] = None]
Results == /\ Is("results") /\ UNCHANGED <<my, wire, got, given>> /\ Ok(peer[D].open)
           /\ IF E.ok = "no" THEN UNCHANGED <<peer, key, res>>
              ELSE LET n == Len(peer[D].want)
                       r == [cts |-> E.res.cts, nonces |-> E.res.nonces, idx |-> E.res.idx, want |-> peer[D].want, got |-> got[D]]
                   IN  /\ Len(r.cts) = n /\ Len(r.nonces) = n /\ Len(r.idx) = n
                       /\ peer' = [peer EXCEPT ![D] = Closed]
                       /\ Settle(key[D], r)
                       /\ res' = [res EXCEPT ![D] = IF key[D] = None THEN r ELSE None] /\ key' = [key EXCEPT ![D] = None]

\* ---- files and shards
Still == UNCHANGED <<my, peer, wire, got, key, res, given>>
File == Is("file") /\ Still /\ E.out = E.in
KeyFile == Is("keyfile") /\ Still /\ E.out = E.in
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Split == /\ Is("split") /\ Still /\ Len(E.parts) = E.count /\ Len(E.sizes) = E.count
         /\ LET n == Len(E.in.nonces)
            IN  /\ Sum(E.sizes, E.count) = n
                /\ \A i, j \in 1..E.count : E.sizes[i] - E.sizes[j] \in -1..1
                /\ \A i \in 1..E.count : LET from == Sum(E.sizes, i - 1) + 1
                                             to == Sum(E.sizes, i)
                                         IN  E.parts[i] = [cts |-> SubSeq(E.in.cts, from, to), nonces |-> SubSeq(E.in.nonces, from, to),
                                                           idx |-> SubSeq(E.in.idx, from, to)]
\* rows encrypted from a first index on
Local == /\ Is("local") /\ Still /\ Len(E.cts) = Len(E.rows)
         /\ LET ks == Schedule(E.key)
            IN  \A i \in 1..Len(E.rows) : IsRowOf(ks, E.nonce, AddMul(E.off, 1, i - 1, Nought), E.cts[i], E.rows[i])

\* ---- whole runs: what either party is shown are the picked rows
Picked == /\ Is("picked") /\ Still /\ Len(E.out) = Len(E.pick)
          /\ \A i \in 1..Len(E.pick) : E.out[i] = E.rows[E.pick[i] + 1]

\* ---- union to intersection: both lists name, place by place, the same members, all that both parties have;
\*      each party is told where the member is at the other
Valid(m) == \A i \in 1..Len(m) : m[i] = -1 \/ (m[i] \in 0..(Len(m) - 1) /\ \A j \in 1..(i - 1) : m[j] # m[i])
Adapt == /\ Is("adapt") /\ Still
         /\ E.ok = (IF Len(E.map0) > 0 /\ Valid(E.map0) /\ Valid(E.map1) THEN 1 ELSE 0)
         /\ E.ok = 1 =>
              LET both == {i \in 1..Len(E.map0) : E.map0[i] >= 0 /\ E.map1[i] >= 0}
                  at(k) == <<E.out1[k], E.out0[k]>>
              IN  /\ Len(E.out0) = Cardinality(both) /\ Len(E.out1) = Cardinality(both)
                  /\ {at(k) : k \in 1..Len(E.out0)} = {<<E.map0[i], E.map1[i]>> : i \in both}

\* whatever the places in the union, every order of the intersection comes as often (seven standard deviations)
Spread == /\ Is("spread") /\ Still /\ E.strange = 0
          /\ LET mu == E.total \div E.cells IN \A i \in 1..Len(E.counts) : (E.counts[i] - mu) * (E.counts[i] - mu) <= 49 * mu

Next == Spread \/ Begin \/ PrepMy \/ PrepPeer \/ Send \/ Recv \/ Key \/ Results \/ File \/ KeyFile \/ Split \/ Local \/ Picked \/ Adapt
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
