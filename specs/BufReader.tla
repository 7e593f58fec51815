------------------------------ MODULE BufReader -------------------------------
(***************************************************************************)
(* The buffered reader: a window onto the file which is refilled with      *)
(* between one and Chunk bytes at a time (a storage service may return     *)
(* less than asked for).  For every file over {text, newline}, every       *)
(* refill size and every mixture of reads by length and by line, each call *)
(* returns what the file holds at the reader's place, and the end is seen  *)
(* exactly when everything was returned.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxLen, Chunk, MaxRead
NL == 1
ASSUME MaxLen \in Nat /\ Chunk \in Nat \ {0}

VARIABLES file, base, win, cur, pc, want, got, from
vars == <<file, base, win, cur, pc, want, got, from>>

Files == UNION {[1..n -> {0, NL}] : n \in 0..MaxLen}
Init == file \in Files /\ base = 0 /\ win = << >> /\ cur = 0 /\ pc = "idle" /\ want = 0 /\ got = << >> /\ from = 0

BaseEof == base = Len(file)
Eof == BaseEof /\ cur = Len(win)
Place == base - (Len(win) - cur)

\* the next window
Load(next) == \E n \in 1..Chunk :
                 /\ base + n <= Len(file)
                 /\ win' = SubSeq(file, base + 1, base + n) /\ cur' = 0 /\ base' = base + n
                 /\ pc' = next

StartRead == /\ pc = "idle" /\ ~Eof /\ \E n \in 1..MaxRead : want' = n
             /\ got' = << >> /\ from' = Place /\ pc' = "read" /\ UNCHANGED <<file, base, win, cur>>
TakeAll == /\ pc = "read"
           /\ LET rest == want - Len(got)
                  have == Len(win) - cur
              IN  IF have >= rest
                  THEN got' = got \o SubSeq(win, cur + 1, cur + rest) /\ cur' = cur + rest /\ pc' = "readDone"
                  ELSE /\ got' = got \o SubSeq(win, cur + 1, Len(win)) /\ cur' = Len(win)
                       /\ pc' = IF BaseEof THEN "readDone" ELSE "readLoad"
           /\ UNCHANGED <<file, base, win, want, from>>
ReadLoad == pc = "readLoad" /\ Load("read") /\ UNCHANGED <<file, want, got, from>>
ReadDone == pc = "readDone" /\ pc' = "idle" /\ UNCHANGED <<file, base, win, cur, want, got, from>>

StartLine == /\ pc = "idle" /\ ~Eof /\ got' = << >> /\ from' = Place
             /\ pc' = (IF cur = Len(win) THEN "lineLoad" ELSE "line") /\ UNCHANGED <<file, base, win, cur, want>>
LineLoad == pc = "lineLoad" /\ Load("line") /\ UNCHANGED <<file, want, got, from>>
TakeByte == /\ pc = "line" /\ cur' = cur + 1 /\ UNCHANGED <<file, base, win, want, from>>
            /\ IF win[cur + 1] = NL THEN pc' = "lineTail" /\ UNCHANGED got
               ELSE /\ got' = Append(got, win[cur + 1])
                    /\ pc' = IF cur + 1 < Len(win) THEN "line" ELSE IF BaseEof THEN "lineTail" ELSE "lineLoad"
\* the window is refilled right after a line which ends it, so that eof is told apart from more to come
LineTail == /\ pc = "lineTail"
            /\ IF cur = Len(win) /\ ~Eof THEN Load("lineDone") ELSE pc' = "lineDone" /\ UNCHANGED <<base, win, cur>>
            /\ UNCHANGED <<file, want, got, from>>
LineDone == pc = "lineDone" /\ pc' = "idle" /\ UNCHANGED <<file, base, win, cur, want, got, from>>

Next == StartRead \/ TakeAll \/ ReadLoad \/ ReadDone \/ StartLine \/ LineLoad \/ TakeByte \/ LineTail \/ LineDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Window == win = SubSeq(file, base - Len(win) + 1, base) /\ cur \in 0..Len(win)
Smaller(a, b) == IF a < b THEN a ELSE b
ReadRight == pc = "readDone" => /\ got = SubSeq(file, from + 1, from + Smaller(want, Len(file) - from))
                                /\ Place = from + Len(got)
LineRight == pc = "lineDone" =>
               LET nls == {i \in (from + 1)..Len(file) : file[i] = NL}
                   e == IF nls = {} THEN Len(file) + 1 ELSE CHOOSE i \in nls : \A j \in nls : i <= j
               IN  got = SubSeq(file, from + 1, e - 1) /\ Place = Smaller(e, Len(file))
EndRight == pc = "idle" => (Eof <=> Place = Len(file))
Returns == [](pc # "idle" => <>(pc = "idle"))
===============================================================================
