---------------------------- MODULE TupleSchedule ----------------------------
(***************************************************************************)
(* Two parties make the same requests for boolean and composite tuples.    *)
(* Both kinds come from one pair of transfer channels: each party queues   *)
(* the generations its main thread starts, and a generation runs when it   *)
(* is at the head of the queue.  Whatever the threads' speeds, both        *)
(* parties generate the same kinds in the same order (so the messages on   *)
(* the channels fit), and every request is served.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Requests,          \* length of the history
         Ordered            \* TRUE: the queue decides, as in the code; FALSE: whoever comes first runs (shows why)

Kinds == {"B", "C"}
Party == 1..2
VARIABLES hist,             \* the requests, chosen at the start: kinds of chunks used up, in order
          pos,              \* per party: how far the main thread is
          queue,            \* per party: generations waiting or running, oldest first
          waiting,          \* per party: kinds whose thread waits for its turn
          done,             \* per party: kinds whose chunk is ready
          chan              \* per party: the kinds it has spoken on the channel, in order
vars == <<hist, pos, queue, waiting, done, chan>>

Init == /\ hist \in [1..Requests -> Kinds]
        /\ pos = [p \in Party |-> 0]
        \* the constructor starts one generation of each kind
        /\ queue = [p \in Party |-> <<"B", "C">>]
        /\ waiting = [p \in Party |-> Kinds]
        /\ done = [p \in Party |-> {}]
        /\ chan = [p \in Party |-> << >>]

\* the channel lets the parties proceed only together
MayRun(p, k) == k \in waiting[p] /\ (Ordered => Head(queue[p]) = k)
RemoveFirst(s, k) == LET i == CHOOSE i \in 1..Len(s) : s[i] = k /\ \A j \in 1..(i - 1) : s[j] # k
                     IN  SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Speak(p, k) == /\ MayRun(p, k)
               /\ Len(chan[p]) <= Len(chan[3 - p])
               /\ chan' = [chan EXCEPT ![p] = Append(@, k)]
               /\ waiting' = [waiting EXCEPT ![p] = @ \ {k}]
               /\ UNCHANGED <<hist, pos, queue, done>>
\* a generation ends when the peer has answered in kind
Finish(p, k) == /\ Len(chan[p]) > 0 /\ chan[p][Len(chan[p])] = k /\ k \notin waiting[p] /\ k \notin done[p]
                /\ Len(chan[3 - p]) >= Len(chan[p])
                /\ queue' = [queue EXCEPT ![p] = RemoveFirst(@, k)]
                /\ done' = [done EXCEPT ![p] = @ \cup {k}]
                /\ UNCHANGED <<hist, pos, waiting, chan>>
\* the main thread takes the chunk it needs next and starts the next generation of that kind
Take(p) == /\ pos[p] < Requests
           /\ LET k == hist[pos[p] + 1]
              IN  /\ k \in done[p]
                  /\ done' = [done EXCEPT ![p] = @ \ {k}]
                  /\ waiting' = [waiting EXCEPT ![p] = @ \cup {k}]
                  /\ queue' = [queue EXCEPT ![p] = Append(@, k)]
           /\ pos' = [pos EXCEPT ![p] = @ + 1]
           /\ UNCHANGED <<hist, chan>>
Next == \E p \in Party : Take(p) \/ \E k \in Kinds : Speak(p, k) \/ Finish(p, k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Agreed == \A i \in 1..Len(chan[1]) : i <= Len(chan[2]) => chan[1][i] = chan[2][i]
Served == <>(\A p \in Party : pos[p] = Requests)
=============================================================================
