------------------------------- MODULE Ports -------------------------------
(* Building a TNC handle: which connections are made, and in which order.     *)
EXTENDS Naturals, Sequences

CONSTANTS Host0, Port0, MaxPort,
          How(_, _)    \* what is at a host and port: open, closed, full

VARIABLES
  host, control, data,   \* what is configured; data = 0: nothing
  pc,       \* idle, control, data, and how the last build ended: ok, err
  conns,    \* connections made by the current or last build: <<host, port>>
  admitted  \* places that were full take connections now

pvars == <<host, control, data, pc, conns, admitted>>

PortsInit == host = Host0 /\ control = Port0 /\ data = 0 /\ pc = "idle" /\ conns = <<>> /\ admitted = FALSE

Resting == pc \in {"idle", "ok", "err"}
SetHost(h) == Resting /\ host' = h /\ UNCHANGED <<control, data, pc, conns, admitted>>
SetControl(p) == Resting /\ control' = p /\ UNCHANGED <<host, data, pc, conns, admitted>>
SetData(p) == Resting /\ data' = p /\ UNCHANGED <<host, control, pc, conns, admitted>>
Admit == admitted' = TRUE /\ UNCHANGED <<host, control, data, pc, conns>>

\* The builder keeps what it was told: it can build again.
NoDataPort == data = 0 /\ control = MaxPort
DataPort == IF data = 0 THEN control + 1 ELSE data
Build ==
  /\ Resting
  /\ pc' = IF NoDataPort THEN "err" ELSE "control"
  /\ conns' = <<>>
  /\ UNCHANGED <<host, control, data, admitted>>

Takes(p) == How(host, p) = "open" \/ (How(host, p) = "full" /\ admitted)
Reach(at, p, next) ==
  /\ pc = at
  /\ \/ Takes(p) /\ conns' = Append(conns, <<host, p>>) /\ pc' = next
     \/ How(host, p) = "closed" /\ pc' = "err" /\ UNCHANGED conns
  /\ UNCHANGED <<host, control, data, admitted>>
ReachControl == Reach("control", control, "data")
ReachData == Reach("data", DataPort, "ok")
PortsStep == ReachControl \/ ReachData
PortsQuiet == /\ ~(pc = "control" /\ (Takes(control) \/ How(host, control) = "closed"))
              /\ ~(pc = "data" /\ (Takes(DataPort) \/ How(host, DataPort) = "closed"))

\* C23.
C23 ==
  /\ conns # <<>> => conns[1] = <<host, control>>
  /\ Len(conns) <= 2
  /\ Len(conns) = 2 => conns[2] = <<host, IF data = 0 THEN control + 1 ELSE data>>
  /\ pc = "ok" => Len(conns) = 2
  /\ pc = "err" => Len(conns) < 2
=============================================================================
