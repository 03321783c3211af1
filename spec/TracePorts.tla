----------------------------- MODULE TracePorts -----------------------------
(* Traces of the real builder must be behaviours of Ports.tla.                *)
EXTENDS Ports, Json, TLC, IOUtils, FiniteSets
File == JsonDeserialize(IOEnv.TRACES)
Traces == File.traces
VARIABLES tr, l, busy, shown
tvars == <<pvars, tr, l, busy, shown>>
Net == Traces[tr].net
THow(h, p) == IF \E i \in 1..Len(Net) : Net[i].h = h /\ Net[i].p = p
              THEN Net[CHOOSE i \in 1..Len(Net) : Net[i].h = h /\ Net[i].p = p].how ELSE "closed"
Ev == Traces[tr].ev
E == Ev[l]
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ busy = FALSE /\ shown = 0 /\ PortsInit
Act ==
  \/ E.op = "host" /\ SetHost(E.h)
  \/ E.op = "control" /\ SetControl(E.p)
  \/ E.op = "data" /\ SetData(E.p)
  \/ E.op = "build" /\ Build
  \/ E.op = "admit" /\ Admit
  \/ E.op = "call" /\ pc = "ok" /\ UNCHANGED pvars
Begin == /\ ~busy /\ l <= Len(Ev) /\ Act /\ busy' = TRUE
         /\ shown' = (IF E.op = "build" THEN 0 ELSE shown) /\ UNCHANGED <<tr, l>>
Step == busy /\ PortsStep /\ UNCHANGED <<tr, l, busy, shown>>
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
Result == CASE E.op = "build" -> IF Resting THEN pc ELSE "pend"
            [] E.op = "admit" -> E.o.res  \* see below
            [] E.op = "call" -> "ok"
            [] OTHER -> "none"
\* A command goes to the control connection.
ToControl == E.op = "call" => Len(E.o.to) = 1 /\ <<E.o.to[1][1], E.o.to[1][2]>> = conns[1]
Observe ==
  /\ busy /\ PortsQuiet
  /\ SameBag(E.o.conns, SubSeq(conns, shown + 1, Len(conns)))
  /\ E.o.res = Result /\ ToControl
  /\ E.op = "admit" => E.o.res = pc
  /\ busy' = FALSE /\ l' = l + 1 /\ shown' = Len(conns) /\ UNCHANGED <<pvars, tr>>
TraceNext == Begin \/ Step \/ Observe
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Where == PrintT(<<"at", Traces[tr].id, l, busy>>)
Reached == l > Len(Ev) => PrintT(<<"accept", Traces[tr].id>>)
TraceInv == TRUE
=============================================================================
