------------------------------ MODULE FileTrace -------------------------------
(***************************************************************************)
(* Decides recorded uses of buffered file access.  A file is a sequence of *)
(* bytes; a reader is a position in it; a writer is the sequence of bytes  *)
(* it was given, which must be the file once close reports success.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, files, pos, of, out
\* out: [given |-> bytes, room |-> bytes the device takes or -1, bad |-> an error was reported]
vars == <<l, files, pos, of, out>>
E == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1
Keep == UNCHANGED <<files, pos, of, out>>
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE << >>
Put(f, k, v) == (k :> v) @@ f

NL == 10
Comma == 44
Space == {9, 10, 11, 12, 13, 32}
\* the first place of byte b in s at or after i, or Len(s) + 1
RECURSIVE Find(_, _, _)
Find(s, b, i) == LET hi == IF i + 63 < Len(s) THEN i + 63 ELSE Len(s)
                     hit == {j \in i..hi : s[j] = b}
                 IN  IF i > Len(s) THEN Len(s) + 1
                     ELSE IF hit = {} THEN Find(s, b, hi + 1)
                     ELSE CHOOSE j \in hit : \A k \in hit : j <= k
\* the pieces of s between the bytes b
Split(s, b, i) == LET cut == SetToSortSeq({j \in i..Len(s) : s[j] = b}, <)
                      n == Len(cut)
                  IN  [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN i ELSE cut[k - 1] + 1,
                                                      IF k = n + 1 THEN Len(s) ELSE cut[k] - 1)]
\* the lines of a file: a last line need not be terminated, and there is no line after the last terminator
Lines(s) == IF s = << >> THEN << >>
            ELSE LET p == Split(s, NL, 1) IN IF p[Len(p)] = << >> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
Normal(s) == IF s = << >> \/ s[Len(s)] = NL THEN s ELSE Append(s, NL)
Trim(s) == LET solid == SetToSortSeq({i \in 1..Len(s) : s[i] \notin Space}, <)
           IN  IF solid = << >> THEN << >> ELSE SubSeq(s, solid[1], solid[Len(solid)])
Cells(line) == LET p == Split(Trim(line), Comma, 1) IN [i \in 1..Len(p) |-> Trim(p[i])]

Init == l = 1 /\ files = << >> /\ pos = << >> /\ of = << >> /\ out = [room |-> -1]
Begin == Is("begin") /\ files' = << >> /\ pos' = << >> /\ of' = << >> /\ out' = [room |-> -1]
PutF == Is("put") /\ files' = Put(files, E.f, E.c) /\ UNCHANGED <<pos, of, out>>

Open == Is("open") /\ pos' = Put(pos, E.r, 0) /\ of' = Put(of, E.r, E.f) /\ UNCHANGED <<files, out>>
Text == files[of[E.r]]
Rest == Len(Text) - pos[E.r]
Step(n) == pos' = [pos EXCEPT ![E.r] = @ + n] /\ UNCHANGED <<files, of, out>>
Least(a, b) == IF a < b THEN a ELSE b
\* a read delivers as much as asked for or all there is
Read == /\ Is("read") /\ Rest > 0
        /\ E.out = SubSeq(Text, pos[E.r] + 1, pos[E.r] + Least(E.n, Rest))
        /\ Step(Len(E.out))
Line == /\ Is("line") /\ Rest > 0
        /\ LET j == Find(Text, NL, pos[E.r] + 1)
           IN  /\ E.out = SubSeq(Text, pos[E.r] + 1, j - 1)
               /\ Step(Least(j, Len(Text)) - pos[E.r])
End == Is("end") /\ Rest = 0 /\ Keep
Eof == Is("eof") /\ E.out = (IF Rest = 0 THEN 1 ELSE 0) /\ Keep
Close == Is("close") /\ E.rc = 0 /\ Keep

WOpen == Is("wopen") /\ out' = [given |-> << >>, room |-> E.room, bad |-> FALSE] /\ UNCHANGED <<files, pos, of>>
Full(n) == out.room >= 0 /\ n > out.room
Write == /\ Is("write")
         /\ out' = [out EXCEPT !.given = @ \o E.c, !.bad = @ \/ E.ok = 0]
         /\ E.ok = 0 => Full(Len(out'.given))
         /\ UNCHANGED <<files, pos, of>>
\* success means that the file is what was written; a device with room for it all is no excuse to fail
WClose == /\ Is("wclose") /\ Keep
          /\ (E.ok = 1 /\ ~out.bad) => E.c = out.given
          /\ ~Full(Len(out.given)) => E.ok = 1 /\ E.c = out.given

WriteFile == Is("writefile") /\ E.ok = 1 /\ E.now = E.c /\ files' = Put(files, E.f, E.c) /\ UNCHANGED <<pos, of, out>>
ReadFile == Is("readfile") /\ E.ok = 1 /\ E.out = Normal(files[E.f]) /\ Keep
Transfer == /\ Is("transfer") /\ E.ok = 1 /\ E.now = Normal(files[E.f])
            /\ files' = Put(files, E.g, E.now) /\ UNCHANGED <<pos, of, out>>
Csv == /\ Is("csv") /\ Keep
       /\ IF files[E.f] = << >> THEN E.ok = 0
          ELSE LET ls == Lines(files[E.f])
               IN  /\ E.ok = 1
                   /\ E.header = Cells(ls[1])
                   /\ Len(E.rows) = Len(ls) - 1
                   /\ \A i \in 1..Len(E.rows) : E.rows[i] = Cells(ls[i + 1])
Absent == Is("absent") /\ E.ok = <<0, 0>> /\ Keep
FullDevice == Is("full") /\ E.ok = <<0, 0>> /\ Keep

Next == \/ Begin \/ PutF \/ Open \/ Read \/ Line \/ End \/ Eof \/ Close \/ WOpen \/ Write \/ WClose
        \/ WriteFile \/ ReadFile \/ Transfer \/ Csv \/ Absent \/ FullDevice
Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT("REJECTED at line " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
