------------------------------ MODULE UdpSession ------------------------------
(***************************************************************************)
(* One direction of unified data processing.  The owner opens a session,   *)
(* sends batches of rows, each under a nonce drawn for the batch, in       *)
(* counter mode from nonce + row index * Blocks on, and gives the          *)
(* session's key away at its end (into the joint decryption).  The other   *)
(* side opens a session by saying which rows it wants, takes in batches    *)
(* and at last gives out what it kept.                                     *)
(* Checked for every interleaving of both sides, with batches under way:   *)
(* no (key, counter) ever masks two different blocks; nothing is encrypted *)
(* under a key already given away; what is given out belongs to this       *)
(* session and was asked for, and is everything asked for which arrived.   *)
(* Mistake: "none"; "overlap": the counter moves                           *)
(* on by one per row; "sameKey" for all sessions; "noClose": the session   *)
(* stays open when the key has been given; "noClear": rows stay.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Rows, Blocks, Sessions, MaxBatches, Mistake
VARIABLES mine, serial, nonce, sent, masks, gone, wire, other, want, kept, answers
\* mine: the owner's session or 0; serial: sessions so far; sent: rows of this session sent; masks: blocks masked, as
\* <<key, nonce, counter, session, row, block>>; gone: keys given away; other: the peer's session or 0 (kept: index ->
\* <<session, batch>>); answers: what was given out
vars == <<mine, serial, nonce, sent, masks, gone, wire, other, want, kept, answers>>
Idx == 0..(Rows - 1)

Init == /\ mine = 0 /\ serial = 0 /\ nonce = 0 /\ sent = {} /\ masks = {} /\ gone = {} /\ wire = << >>
        /\ other = 0 /\ want = {} /\ kept = << >> /\ answers = {}
KeyOf(s) == IF Mistake = "sameKey" THEN 1 ELSE s
Open == /\ mine = 0 /\ serial < Sessions /\ serial' = serial + 1 /\ mine' = serial + 1 /\ sent' = {}
        /\ UNCHANGED <<nonce, masks, gone, wire, other, want, kept, answers>>
CounterOf(i, j) == IF Mistake = "overlap" THEN i + j ELSE i * Blocks + j
Send == /\ mine # 0 /\ nonce < MaxBatches
        /\ \E b \in (SUBSET (Idx \ sent)) \ {{}} :
             /\ masks' = masks \cup {<<KeyOf(mine), nonce + 1, CounterOf(i, j), mine, i, j>> : i \in b, j \in 0..(Blocks - 1)}
             /\ nonce' = nonce + 1
             /\ sent' = sent \cup b
             /\ wire' = Append(wire, [s |-> mine, rows |-> b])
        /\ UNCHANGED <<mine, serial, gone, other, want, kept, answers>>
Give == /\ mine # 0 /\ gone' = gone \cup {KeyOf(mine)}
        /\ mine' = (IF Mistake = "noClose" THEN mine ELSE 0)
        /\ UNCHANGED <<serial, nonce, sent, masks, wire, other, want, kept, answers>>
\* both sides agree on sessions: the peer opens the next one when it has given out the last, and takes in only its own
PeerOpen == /\ other = 0 /\ \E s \in {Cardinality({a[1] : a \in answers}) + 1} : s <= Sessions /\ other' = s
            /\ want' \in SUBSET Idx
            /\ kept' = (IF Mistake = "noClear" THEN kept ELSE << >>)
            /\ UNCHANGED <<mine, serial, nonce, sent, masks, gone, wire, answers>>
Take == /\ other # 0 /\ wire # << >> /\ Head(wire).s = other /\ wire' = Tail(wire)
        /\ kept' = [i \in DOMAIN kept \cup (Head(wire).rows \cap want) |-> IF i \in Head(wire).rows THEN other ELSE kept[i]]
        /\ UNCHANGED <<mine, serial, nonce, sent, masks, gone, other, want, answers>>
\* at the end of the session on the wire
Over == \A k \in 1..Len(wire) : wire[k].s # other
Answer == /\ other # 0 /\ serial >= other /\ mine # other /\ Over
          /\ answers' = answers \cup {<<other, want, kept>>} /\ other' = 0
          /\ UNCHANGED <<mine, serial, nonce, sent, masks, gone, wire, want, kept>>
Next == Open \/ Send \/ Give \/ PeerOpen \/ Take \/ Answer
Spec == Init /\ [][Next]_vars

OwnCounters == \A m, n \in masks : (m[1] = n[1] /\ m[2] = n[2] /\ m[3] = n[3]) => (m[4] = n[4] /\ m[5] = n[5] /\ m[6] = n[6])
NotAfter == \A s \in {mine} \ {0} : KeyOf(s) \notin gone
OnlyThisSession == \A a \in answers : \A i \in DOMAIN a[3] : a[3][i] = a[1] /\ i \in a[2]
Answers == \A a \in answers : \A i \in a[2] : (\E m \in masks : m[4] = a[1] /\ m[5] = i) => i \in DOMAIN a[3]
==============================================================================
