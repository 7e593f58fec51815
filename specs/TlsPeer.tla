------------------------------ MODULE TlsPeer ------------------------------
(***************************************************************************)
(* Why a client agent talks only to a peer its authority vouches for: the  *)
(* steps an agent takes to open its connection (configure the context,     *)
(* dial, shake hands, look at the result) against every kind of peer that  *)
(* may answer.  The library's part of the handshake succeeds unless a      *)
(* configured check fails.  Skip is the set of steps that are forgotten:   *)
(* with nothing forgotten the agent ends connected exactly to vouched      *)
(* peers; each step alone is necessary (the refuted variants).             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Authorities, Addresses, Skip
Steps == {"version", "roots", "verify", "host", "result"}
VARIABLES pc, peer, dial, root, conf, hs, conn, data
vars == <<pc, peer, dial, root, conf, hs, conn, data>>
Peers == [tls : {0, 12, 13}, issuer : Authorities \cup {"self"}, name : Addresses, time : {"valid", "expired"}]
Init == /\ peer \in Peers /\ dial \in Addresses /\ root \in Authorities
        /\ pc = "configure" /\ conf = {} /\ hs = "none" /\ conn = "none" /\ data = FALSE
\* the order of configuration does not matter, but all of it comes before the handshake
Configure(s) == /\ pc = "configure" /\ s \in Steps \ ({"result"} \cup Skip \cup conf)
                /\ conf' = conf \cup {s} /\ UNCHANGED <<pc, peer, dial, root, hs, conn, data>>
Dial == /\ pc = "configure" /\ Steps \ ({"result"} \cup Skip) \subseteq conf
        /\ pc' = "shake" /\ UNCHANGED <<peer, dial, root, conf, hs, conn, data>>
Trusted == IF "roots" \in conf THEN {root} ELSE {}
Fine == /\ peer.tls # 0
        /\ "version" \in conf => peer.tls = 13
        /\ "verify" \in conf => /\ peer.issuer \in Trusted /\ peer.time = "valid"
                                /\ "host" \in conf => peer.name = dial
Shake == /\ pc = "shake" /\ hs' = (IF Fine THEN "done" ELSE "failed") /\ pc' = "look"
         /\ UNCHANGED <<peer, dial, root, conf, conn, data>>
Look == /\ pc = "look" /\ pc' = "end"
        /\ conn' = (IF hs = "done" \/ "result" \in Skip THEN "open" ELSE "refused")
        /\ UNCHANGED <<peer, dial, root, conf, hs, data>>
Talk == pc = "end" /\ conn = "open" /\ data' = TRUE /\ UNCHANGED <<pc, peer, dial, root, conf, hs, conn>>
Done == pc = "end" /\ UNCHANGED vars
Next == (\E s \in Steps : Configure(s)) \/ Dial \/ Shake \/ Look \/ Talk \/ Done
Spec == Init /\ [][Next]_vars
Vouched == peer.tls = 13 /\ peer.issuer = root /\ peer.name = dial /\ peer.time = "valid"
OnlyVouched == conn = "open" => Vouched
EveryVouched == conn = "refused" => ~Vouched
NoDataBefore == data => Vouched
=============================================================================
