------------------------------- MODULE MCRig -------------------------------
(* A design of the rig task: a channel of fixed size, one command buffer      *)
(* written piece by piece, and a buffer for what the radio sends. TLC checks  *)
(* every interleaving of it with its users and its radio, and that it is an   *)
(* implementation of Rig.tla, liveness included.                              *)
EXTENDS Naturals, Integers, Sequences, TLC

CONSTANTS Cap,        \* size of the channel
          MaxCmds, MaxRadio, Cmds, RadioBytes

MCCode(c) == <<c, ";">>

VARIABLES acc, wait, fate, held, n, room, rend, wend, task,
          ch,         \* the channel
          cmd,        \* what is left of the command being written
          rin,        \* bytes from the radio not yet read
          upd,        \* bytes read that do not yet form a response
          got,        \* everything the radio sent
          asked, eofs, lines

R == INSTANCE Rig WITH Code <- MCCode
dvars == <<ch, cmd, rin, upd, got, asked, eofs, lines>>
vars == <<acc, wait, fate, held, n, room, rend, wend, task, dvars>>

Init == R!RigInit /\ ch = <<>> /\ cmd = <<>> /\ rin = <<>> /\ upd = <<>> /\ got = <<>> /\ asked = 0 /\ eofs = FALSE /\ lines = <<>>

\* The task: waits for a command or for the radio; a command once begun is
\* written to its end first.
Take ==
  /\ task = "run" /\ cmd = <<>> /\ ch # <<>>
  /\ cmd' = MCCode(Head(ch)) /\ ch' = Tail(ch)
  /\ UNCHANGED <<acc, wait, fate, held, n, room, rend, wend, task, rin, upd, got, asked, eofs, lines>>
Put(k) ==
  /\ cmd # <<>> /\ k <= Len(cmd) /\ R!WriteBytes(k)
  /\ cmd' = SubSeq(cmd, k + 1, Len(cmd))
  /\ UNCHANGED <<ch, rin, upd, got, asked, eofs, lines>>
Fail == cmd # <<>> /\ wend /\ R!EndErr /\ UNCHANGED dvars
FirstEnd == CHOOSE i \in 1..Len(upd) : upd[i] = ";" /\ \A j \in 1..(i - 1) : upd[j] # ";"
HasEnd == \E i \in 1..Len(upd) : upd[i] = ";"
Listen(k) ==
  /\ task = "run" /\ cmd = <<>> /\ ~HasEnd /\ k \in 1..Len(rin)
  /\ upd' = upd \o SubSeq(rin, 1, k) /\ rin' = SubSeq(rin, k + 1, Len(rin))
  /\ UNCHANGED <<acc, wait, fate, held, n, room, rend, wend, task, ch, cmd, got, asked, eofs, lines>>
Line ==
  /\ task = "run" /\ HasEnd
  /\ lines' = Append(lines, SubSeq(upd, 1, FirstEnd - 1))
  /\ upd' = SubSeq(upd, FirstEnd + 1, Len(upd))
  /\ UNCHANGED <<acc, wait, fate, held, n, room, rend, wend, task, ch, cmd, rin, got, asked, eofs>>
Eof ==
  /\ cmd = <<>> /\ ~HasEnd /\ rin = <<>> /\ rend /\ R!EndErr
  /\ UNCHANGED dvars
Finish == cmd = <<>> /\ ~HasEnd /\ ch = <<>> /\ R!EndOk /\ UNCHANGED dvars
\* A waiting sender gets in.
Enter ==
  /\ Len(ch) < Cap /\ R!Accept
  /\ ch' = Append(ch, Head(wait))
  /\ UNCHANGED <<cmd, rin, upd, got, asked, eofs, lines>>

Task == Take \/ (\E k \in 1..2 : Put(k)) \/ Fail \/ (\E k \in 1..Len(rin) : Listen(k)) \/ Line \/ Eof \/ Finish \/ Enter

Count == asked < MaxCmds /\ asked' = asked + 1
User ==
  \/ \E c \in Cmds : wait = <<>> /\ Len(ch) < Cap /\ R!TryAcc(c) /\ Count /\ ch' = Append(ch, c) /\ UNCHANGED <<cmd, rin, upd, got, eofs, lines>>
  \/ \E c \in Cmds : R!Send(c) /\ Count /\ UNCHANGED <<ch, cmd, rin, upd, got, eofs, lines>>
  \/ held = 1 /\ R!Hold(0) /\ UNCHANGED dvars
  \/ \E b \in RadioBytes : /\ Len(got) < MaxRadio /\ ~rend
                           /\ rin' = Append(rin, b) /\ got' = Append(got, b)
                           /\ UNCHANGED <<acc, wait, fate, held, n, room, rend, wend, task, ch, cmd, upd, asked, eofs, lines>>
  \/ ~eofs /\ eofs' = TRUE /\ (R!RadioEnd \/ R!WriteEnd) /\ UNCHANGED <<ch, cmd, rin, upd, got, asked, lines>>
  \/ \E k \in {0, 1, R!NoLimit} : room # k /\ R!Room(k) /\ UNCHANGED dvars

Next == Task \/ User
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Take) /\ WF_vars(\E k \in 1..2 : Put(k)) /\ WF_vars(Fail) /\ WF_vars(\E k \in 1..Len(rin) : Listen(k))
             /\ WF_vars(Line) /\ WF_vars(Eof) /\ WF_vars(Finish) /\ WF_vars(Enter)

C12 == R!C12
C13 == R!C13
\* Accepted commands are in the channel, under way or out; nothing else is.
Kept == task = "run" => SubSeq(R!All, n + 1, Len(R!All)) = cmd \o R!Flat(ch)
\* C12: the channel holds no more than it can, so a refusal means it is full.
Full == Len(ch) = Cap => Len(acc) - R!Written >= Cap
\* Responses are read whole and in order, whatever is going on.
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o <<";">> \o Joined(Tail(q))
Responses == Joined(lines) \o upd \o rin = got
\* The design does nothing that Rig.tla does not allow ...
Refines == [][R!RigStep \/ UNCHANGED R!rvars \/ \E c \in Cmds : R!TryAcc(c) \/ R!Send(c) \/ R!Hold(0) \/ R!RadioEnd \/ R!WriteEnd
              \/ \E k \in {0, 1, R!NoLimit} : R!Room(k)]_(R!rvars)
\* ... and gets done what it must.
Rests == R!RigQuiet \/ ENABLED Task
C12L == \A k \in 1..(2 * MaxCmds) : (Len(R!All) >= k /\ ~wend /\ ~rend) ~> (n >= k \/ wend \/ rend \/ room = 0)
C13L == /\ (held = 0 /\ wait = <<>>) ~> (task # "run" \/ room = 0)
        /\ rend ~> (task # "run" \/ room = 0)
=============================================================================
