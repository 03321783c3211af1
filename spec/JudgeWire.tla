------------------------------ MODULE JudgeWire ------------------------------
EXTENDS Wire, Judge
Holds == "text" \in DOMAIN C.r /\ C.r.text = Text(C.q.c) /\ OneLine(C.r.text)
Ok == Say(Holds, C.q.c.k)
=============================================================================
