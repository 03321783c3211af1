------------------------------ MODULE TraceRig ------------------------------
(* Traces of the real rig task on a played radio must be behaviours of        *)
(* Rig.tla. The task moves only while it is driven, that is in events with an *)
(* observation, after the event's own action.                                 *)
EXTENDS Rig, Json, TLC, IOUtils

File == JsonDeserialize(IOEnv.TRACES)
Traces == File.traces
Chk == {File.chk[i] : i \in 1..Len(File.chk)}
TCode(c) == IF c = "TX" THEN <<84, 88, 59>> ELSE <<82, 88, 59>>

VARIABLES tr, l, busy, shown
tvars == <<rvars, tr, l, busy, shown>>
Ev == Traces[tr].ev
E == Ev[l]
HasObs == "o" \in DOMAIN E

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ busy = FALSE /\ shown = 0 /\ RigInit

Op(name) == E.op = name
Act ==
  \/ Op("try") /\ E.acc /\ TryAcc(E.c)
  \/ Op("try") /\ ~E.acc /\ TryNot(Traces[tr].cap)
  \/ Op("send") /\ IF held > 0 THEN Send(E.c) ELSE UNCHANGED rvars
  \/ Op("clone") /\ Hold(IF held > 0 THEN held + 1 ELSE 0)
  \/ Op("drop") /\ Hold(IF held > 0 THEN held - 1 ELSE 0)
  \/ Op("dropall") /\ Hold(0)
  \/ Op("room") /\ Room(E.n)
  \/ Op("end") /\ RadioEnd
  \/ Op("wend") /\ WriteEnd
  \/ E.op \in {"radio", "flood", "piece", "bite", "quiet"} /\ UNCHANGED rvars
Begin ==
  /\ ~busy /\ l <= Len(Ev)
  /\ Act
  /\ IF HasObs THEN busy' = TRUE /\ l' = l ELSE busy' = FALSE /\ l' = l + 1
  /\ UNCHANGED <<tr, shown>>

Target == shown + Len(E.o.out)
Step ==
  /\ busy
  /\ \/ Accept
     \/ n < Target /\ Target <= Len(All) /\ WriteBytes(Target - n)
     \/ EndOk \/ EndErr
  /\ UNCHANGED <<tr, l, busy, shown>>

\* How often the task may turn to a radio that never pauses while a command
\* waits.
Patience == 100
Agrees(f, o) ==
  CASE f = "out"   -> n = Target /\ o.out = SubSeq(All, shown + 1, n)
    [] f = "fair"  -> room = NoLimit => \A i \in 1..Len(o.gaps) : o.gaps[i] <= Patience
    [] f = "sent"  -> o.sent = fate
    [] f = "task"  -> o.task = task
    [] f = "spin"  -> ~o.spin
Observe ==
  /\ busy /\ RigQuiet
  /\ \A f \in Chk : Agrees(f, E.o)
  /\ busy' = FALSE /\ l' = l + 1 /\ shown' = n
  /\ UNCHANGED <<rvars, tr>>

TraceNext == Begin \/ Step \/ Observe
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Where == PrintT(<<"at", Traces[tr].id, l, busy>>)
Reached == l > Len(Ev) => PrintT(<<"accept", Traces[tr].id>>)
TraceInv == C12 /\ C13
=============================================================================
