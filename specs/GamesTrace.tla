------------------------------ MODULE GamesTrace ------------------------------
(***************************************************************************)
(* Decides recorded runs of the bundled games against their plaintext      *)
(* meaning: the weighted edit distance, the message the distance earns,    *)
(* the comparison of two fortunes, and what validation must refuse.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, game
vars == <<l, game>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

Init == l = 1 /\ game = "none"
Begin == Is("begin") /\ game' = E.game

Lesser(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Letters(n) == [i \in 1..n |-> i]

\* edit distance, one row of the table at a time: insertions run along the word, deletions along the guess
FirstRow(guess, del) == FoldLeft(LAMBDA row, j : Append(row, row[j] + del), <<0>>, Letters(Len(guess)))
NextRow(row, letter, guess, ins, del) ==
  FoldLeft(LAMBDA new, j : Append(new, Lesser(Lesser(row[j] + Abs(letter - guess[j]), row[j + 1] + ins), new[j] + del)),
           <<row[1] + ins>>, Letters(Len(guess)))
Distance(word, guess, ins, del) ==
  LET last == FoldLeft(LAMBDA row, i : NextRow(row, word[i], guess, ins, del), FirstRow(guess, del), Letters(Len(word)))
  IN last[Len(guess) + 1]

\* all of the message below the threshold, its first half up to twice the threshold, nothing beyond
Message(d, thr, msg) == IF d < thr THEN msg ELSE IF d <= 2 * thr THEN SubSeq(msg, 1, Len(msg) \div 2) ELSE << >>

Bytes(x) == [i \in 1..8 |-> IF i > 4 THEN 0 ELSE (x \div (256 ^ (i - 1))) % 256]
XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
Edit ==
  /\ Is("edit") /\ game = "edit" /\ UNCHANGED game
  /\ Len(E.s0) = E.n /\ Len(E.s1) = E.n /\ Len(E.dist) = E.n /\ Len(E.got) = E.n
  /\ \A k \in 1..E.n :
       LET d == Distance(E.word[k], E.guess[k], E.ins, E.del)
       IN /\ E.dist[k] = Bytes(d)
          /\ XorBytes(E.s0[k], E.s1[k]) = Bytes(d)
          /\ E.got[k] = Message(d, E.thr, E.msg[k])
  \* neither side's shares are the outcome itself
  /\ E.n >= 2 => (E.s0 # E.dist /\ E.s1 # E.dist)

Refused == Is("refused") /\ E.a = 1 /\ E.b = 1 /\ UNCHANGED game
Validate == /\ Is("validate") /\ UNCHANGED game
            /\ E.code = CASE E.what = "none" -> "ok" [] E.what \in {"fewer", "more"} -> "size" [] OTHER -> "result"
Cut == Is("cut") /\ E.refused = 1 /\ UNCHANGED game

\* little-endian bytes: total of three fortunes as bytes, then compared from the top
Carry(s) == FoldLeft(LAMBDA acc, x : <<Append(acc[1], (x + acc[2]) % 256), (x + acc[2]) \div 256>>, << << >>, 0 >>, s)[1]
Total(a, k) == Carry([i \in 1..8 |-> a[1][k][i] + a[2][k][i] + a[3][k][i]])
Below(x, y) == \E i \in 1..8 : x[i] < y[i] /\ \A j \in (i + 1)..8 : x[j] = y[j]
\* the finding "wrap32": the game adds the three 32-bit fortunes in 32 bits
Listed == "KNOWN" \in DOMAIN IOEnv /\ IOEnv.KNOWN = "wrap32"
Low(t) == SubSeq(t, 1, 4) \o <<0, 0, 0, 0>>
Over(a, b, k) == Total(a, k) # Low(Total(a, k)) \/ Total(b, k) # Low(Total(b, k))
Says(x, y) == IF Below(x, y) THEN 1 ELSE 0
Bill ==
  /\ Is("bill") /\ game = "billionaires" /\ UNCHANGED game
  /\ Len(E.alice) = E.n
  /\ \A k \in 1..E.n :
       \/ E.alice[k] = Says(Total(E.a, k), Total(E.b, k))
       \/ /\ Listed /\ Over(E.a, E.b, k)
          /\ E.alice[k] = Says(Low(Total(E.a, k)), Low(Total(E.b, k)))
          /\ PrintT("KNOWNFINDING wrap32")
  \* the outcome is Alice's alone
  /\ (E.n >= 40 /\ \E k \in 1..E.n : E.alice[k] = 1) => E.bob # E.alice

\* strings on wires; what the other party sees of an opening is not judged
Up(ch) == IF ch >= 97 /\ ch <= 122 THEN ch - 32 ELSE ch
Upper(s) == [i \in 1..Len(s) |-> Up(s[i])]
Sizes(v) == [k \in 1..Len(v) |-> Len(v[k])]
Ascii ==
  /\ Is("ascii") /\ game = "ascii" /\ UNCHANGED game
  /\ E.pub = E.y /\ E.pubSize = Sizes(E.y) /\ E.pubUpper = [k \in 1..E.n |-> Upper(E.y[k])]
  /\ E.me = 1 => LET chosen == [k \in 1..E.n |-> IF E.c[k] = 1 THEN E.y[k] ELSE E.x[k]]
                 IN /\ E.open = E.x /\ E.openSize = Sizes(E.x) /\ E.size = Sizes(E.x) /\ E.back = E.x
                    /\ E.upper = [k \in 1..E.n |-> Upper(E.x[k])]
                    /\ E.mux = chosen /\ E.muxPub = chosen

Next == Ascii \/ Begin \/ Edit \/ Refused \/ Validate \/ Cut \/ Bill
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
