------------------------------ MODULE MCPorts ------------------------------
(* Every combination of settings, also of a builder used again, on every      *)
(* network of open, closed and full ports.                                    *)
EXTENDS Ports, TLC, FiniteSets
CONSTANTS PortSet, Hosts, MaxSets
VARIABLES net, sets
MCHow(h, p) == IF p \in DOMAIN net[h] THEN net[h][p] ELSE "closed"
vars == <<pvars, net, sets>>
Init == PortsInit /\ sets = 0 /\ net \in [Hosts -> [PortSet -> {"open", "closed", "full"}]]
\* Settings belong to one build: changing them begins a new one.
Fresh == pc' = "idle" /\ conns' = <<>>
Set == /\ sets < MaxSets /\ sets' = sets + 1 /\ Resting
       /\ \/ \E h \in Hosts : host' = h /\ UNCHANGED <<control, data>>
          \/ \E p \in PortSet : control' = p /\ UNCHANGED <<host, data>>
          \/ \E p \in PortSet : data' = p /\ UNCHANGED <<host, control>>
       /\ Fresh /\ UNCHANGED <<admitted, net>>
Next == Set \/ ((Build \/ PortsStep \/ (~admitted /\ Admit)) /\ UNCHANGED <<net, sets>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(PortsStep /\ UNCHANGED <<net, sets>>)
\* Nothing is connected by a refused build, and the data port only after the control port.
Refused == NoDataPort /\ pc = "err" => conns = <<>>
Order == [][Len(conns') = 2 => Len(conns) \in {1, 2}]_vars
Ends == (pc \in {"control", "data"} /\ admitted) ~> pc \in {"ok", "err", "idle"}
Same == control = data /\ pc = "ok" => conns[1] = conns[2]
=============================================================================
