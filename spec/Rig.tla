-------------------------------- MODULE Rig --------------------------------
(* The rig task as seen from outside: commands go in through a channel, their *)
(* texts come out on the radio link, and the task ends with its commands or   *)
(* its radio. What the radio sends has no effect at all and is not part of    *)
(* the state. How the task is built (MCRig.tla has one way) is left open: it  *)
(* may hold commands back only while the radio takes no more bytes.           *)
EXTENDS Integers, Sequences

CONSTANTS Code(_)   \* the text of a command

VARIABLES
  acc,      \* commands accepted, in order
  wait,     \* senders waiting for room, in order: commands
  fate,     \* what became of every sender that ever waited: wait, acc, lost
  held,     \* sender handles not waiting
  n,        \* bytes written to the radio so far
  room,     \* bytes the radio still takes; -1 if there is no limit
  rend,     \* the radio's side has ended or failed
  wend,     \* writing to the radio fails
  task      \* run, ok, err

rvars == <<acc, wait, fate, held, n, room, rend, wend, task>>

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Code(Head(q)) \o Flat(Tail(q))
All == Flat(acc)
\* Commands that are out completely: the most k whose texts fit in n bytes.
Written == CHOOSE k \in 0..Len(acc) : Len(Flat(SubSeq(acc, 1, k))) <= n /\ (k < Len(acc) => Len(Flat(SubSeq(acc, 1, k + 1))) > n)

NoLimit == -1
RigInit ==
  /\ acc = <<>> /\ wait = <<>> /\ fate = <<>> /\ held = 1
  /\ n = 0 /\ room = NoLimit /\ rend = FALSE /\ wend = FALSE /\ task = "run"

-----------------------------------------------------------------------------
(* The task.                                                                  *)

FirstWaiting == Len(fate) - Len(wait) + 1
Accept ==
  /\ task = "run" /\ wait # <<>>
  /\ acc' = Append(acc, Head(wait)) /\ wait' = Tail(wait)
  /\ fate' = [fate EXCEPT ![FirstWaiting] = "acc"]
  /\ UNCHANGED <<held, n, room, rend, wend, task>>

WriteBytes(k) ==
  /\ task = "run" /\ ~wend
  /\ k \in 1..(Len(All) - n) /\ (room # NoLimit => k <= room)
  /\ n' = n + k
  /\ room' = IF room = NoLimit THEN room ELSE room - k
  /\ UNCHANGED <<acc, wait, fate, held, rend, wend, task>>

\* C13: its commands have ended, and every one of them is out.
Done == held = 0 /\ wait = <<>> /\ n = Len(All)
EndOk ==
  /\ task = "run" /\ Done
  /\ task' = "ok"
  /\ UNCHANGED <<acc, wait, fate, held, n, room, rend, wend>>

\* C13: its radio has ended.
EndErr ==
  /\ task = "run" /\ (rend \/ wend)
  /\ task' = "err"
  /\ wait' = <<>> /\ fate' = [i \in DOMAIN fate |-> IF i >= FirstWaiting THEN "lost" ELSE fate[i]]
  /\ UNCHANGED <<acc, held, n, room, rend, wend>>

\* The radio takes nothing for now.
Blocked == n < Len(All) /\ room = 0 /\ ~wend
MustEnd == ~Blocked /\ (rend \/ (wend /\ n < Len(All)) \/ Done)
\* Nothing is left to do.
RigQuiet == task = "run" => Blocked \/ (n = Len(All) /\ wait = <<>> /\ ~MustEnd)

RigStep == Accept \/ (\E k \in 1..(Len(All) - n) : WriteBytes(k)) \/ EndOk \/ EndErr

-----------------------------------------------------------------------------
(* The users of the channel and the radio.                                    *)

\* A command is accepted at once, or refused: there is room unless the task is
\* gone or cap accepted commands are not out.
TryAcc(c) ==
  /\ task = "run" /\ held > 0
  /\ acc' = Append(acc, c)
  /\ UNCHANGED <<wait, fate, held, n, room, rend, wend, task>>
TryNot(cap) ==
  /\ task # "run" \/ held = 0 \/ Len(acc) - Written >= cap
  /\ UNCHANGED rvars
Send(c) ==
  /\ held > 0
  /\ IF task = "run" THEN wait' = Append(wait, c) /\ fate' = Append(fate, "wait")
     ELSE fate' = Append(fate, "lost") /\ UNCHANGED wait
  /\ UNCHANGED <<acc, held, n, room, rend, wend, task>>
Hold(k) == held' = k /\ UNCHANGED <<acc, wait, fate, n, room, rend, wend, task>>
Room(k) == room' = k /\ UNCHANGED <<acc, wait, fate, held, n, rend, wend, task>>
RadioEnd == rend' = TRUE /\ UNCHANGED <<acc, wait, fate, held, n, room, wend, task>>
WriteEnd == wend' = TRUE /\ UNCHANGED <<acc, wait, fate, held, n, room, rend, task>>

-----------------------------------------------------------------------------
\* C12: never more bytes than were asked for, whole commands in between.
C12 == n <= Len(All)
\* C13.
C13 == /\ task = "ok" => held = 0 /\ wait = <<>> /\ n = Len(All)
       /\ task = "err" => rend \/ wend
       /\ \A i \in DOMAIN fate : fate[i] = "lost" => task # "run"
=============================================================================
