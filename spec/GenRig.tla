------------------------------- MODULE GenRig -------------------------------
(* Scripts for the rig harness: the actions of the users and the radio in     *)
(* behaviours of Rig.tla, the task coming to rest after each but those marked *)
(* s = FALSE. See GenVara.tla.                                                *)
EXTENDS Rig, TLC, Json

CONSTANTS Ops, MaxOps, MaxCmds, MaxLag, AllLengths, Cap

GCode(c) == IF c = "TX" THEN <<84, 88, 59>> ELSE <<82, 88, 59>>
VARIABLES script, lag, asked, inp
gvars == <<rvars, script, lag, asked, inp>>
View == <<IF script = <<>> THEN <<>> ELSE script[Len(script)], Len(All) - n, IF acc = <<>> THEN "" ELSE acc[Len(acc)],
          Len(acc) - Written, wait, Len(fate), held, room, rend, wend, task, lag, asked, inp>>

GInit == RigInit /\ script = <<>> /\ lag = 0 /\ asked = 0 /\ inp = "none"
Op(o) == script' = Append(script, o @@ [s |-> lag' = 0])
New == asked < MaxCmds /\ asked' = asked + 1
Senders(k) == held' = k
Env ==
  \/ /\ "try" \in Ops /\ held > 0 /\ New
     /\ \E c \in {"TX", "RX"} : /\ IF task = "run" /\ Len(acc) - Written < Cap THEN TryAcc(c) ELSE UNCHANGED rvars
                                /\ Op([op |-> "try", c |-> c])
     /\ UNCHANGED inp
  \/ /\ "send" \in Ops /\ New
     /\ \E c \in {"TX", "RX"} : Send(c) /\ Op([op |-> "send", c |-> c])
     /\ UNCHANGED inp
  \/ /\ "clone" \in Ops /\ held \in 1..1 /\ Hold(held + 1) /\ Op([op |-> "clone"]) /\ UNCHANGED <<asked, inp>>
  \/ /\ "drop" \in Ops /\ held > 0 /\ Hold(held - 1) /\ Op([op |-> "drop"]) /\ UNCHANGED <<asked, inp>>
  \/ /\ "radio" \in Ops
     /\ \E p \in {"whole", "part", "end", "empty", "junk", "long", "several"} : inp' = p /\ Op([op |-> "radio", p |-> p])
     /\ UNCHANGED <<rvars, asked>>
  \/ /\ "flood" \in Ops /\ room = NoLimit /\ inp' = "flood" /\ Op([op |-> "flood"])
     /\ UNCHANGED <<rvars, asked>>
  \/ /\ "room" \in Ops
     /\ \E k \in {0, 1, 2, 4, NoLimit} : k # room /\ Room(k) /\ Op([op |-> "room", n |-> k])
     /\ UNCHANGED <<asked, inp>>
  \/ /\ "end" \in Ops /\ ~rend /\ RadioEnd /\ Op([op |-> "end"]) /\ UNCHANGED <<asked, inp>>
  \/ /\ "wend" \in Ops /\ ~wend /\ WriteEnd /\ Op([op |-> "wend"]) /\ UNCHANGED <<asked, inp>>

Resting == RigQuiet
\* The first step that applies: a failed radio ends the task, all is written,
\* senders get in.
Rest ==
  \/ rend /\ ~Blocked /\ EndErr
  \/ ~rend /\ wend /\ n < Len(All) /\ EndErr
  \/ ~rend /\ n = Len(All) /\ Accept
  \/ ~rend /\ n < Len(All) /\ \E k \in 1..(Len(All) - n) :
       /\ (room # NoLimit => k = IF room < Len(All) - n THEN room ELSE Len(All) - n)
       /\ (room = NoLimit => k = Len(All) - n)
       /\ WriteBytes(k)
  \/ ~rend /\ EndOk
GNext ==
  \/ lag = 0 /\ ~Resting /\ Rest /\ UNCHANGED <<script, lag, asked, inp>>
  \/ /\ (lag = 0 => Resting) /\ Len(script) < MaxOps
     /\ lag' \in (IF lag < MaxLag THEN {0, lag + 1} ELSE {0})
     /\ Env
GSpec == GInit /\ [][GNext]_gvars
PrintScript == (script # <<>> /\ lag = 0 /\ Resting /\ (AllLengths \/ Len(script) = MaxOps)) => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
