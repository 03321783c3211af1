------------------------------ MODULE TraceCli ------------------------------
(* Runs of the real program must be behaviours of Cli.tla.                    *)
EXTENDS Cli, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACES)
Traces == File.traces
VARIABLES tr, l, busy, nlines, nconns
tvars == <<cvars, tr, l, busy, nlines, nconns>>
T == Traces[tr]
Ev == T.ev
E == Ev[l]

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ busy = FALSE /\ nlines = 0 /\ nconns = 0 /\ a = T.a /\ CliInit

tReport == B("BUSY ON")
Act ==
  CASE E.op = "start" -> Refuse \/ Start
    [] E.op = "ok"    -> TncAccepts
    [] E.op = "wrong" -> TncRefuses
    [] E.op = "wait"  -> UNCHANGED cvars
    [] OTHER -> FALSE
Begin == ~busy /\ l <= Len(Ev) /\ Act /\ busy' = TRUE /\ UNCHANGED <<tr, l, nlines, nconns>>

tRelease == B("DISCONNECT")
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
New(q, n) == SubSeq(q, n + 1, Len(q))
Observe ==
  /\ busy
  /\ LET o == E.o IN
       /\ ~o.panics
       /\ o.status = Status
       /\ SameBag(o.conns, New(conns, nconns))
       /\ o.lines = New(lines, nlines) \/ (phase = "over" /\ o.lines = Append(New(lines, nlines), tRelease))
       \* How soon the radio is opened, and what is left of it in the end, is not judged here.
       /\ phase # "over" => o.radio = radio \/ (phase = "setup" /\ o.radio = Ours(a))
       /\ Quiet(a) /\ phase \in {"setup", "called"} => o.print = <<>>
       /\ phase = "refused" => o.said
  /\ busy' = FALSE /\ l' = l + 1 /\ nlines' = Len(lines) /\ nconns' = Len(conns)
  /\ UNCHANGED <<cvars, tr>>

TraceNext == Begin \/ Observe
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Where == PrintT(<<"at", T.id, l, busy>>)
Reached == l > Len(Ev) => PrintT(<<"accept", T.id>>)
TraceInv == C24Refused /\ C24Asked /\ C24OneLine /\ C24Radio
=============================================================================
