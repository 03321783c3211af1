------------------------------ MODULE TraceApp ------------------------------
(* Traces of the real program must be behaviours of App.tla. See              *)
(* TraceVara.tla.                                                             *)
EXTENDS App, Wire, Json, TLC, IOUtils

File == JsonDeserialize(IOEnv.TRACES)
Traces == File.traces
Chk == {File.chk[i] : i \in 1..Len(File.chk)}

VARIABLES tr, l, busy,
          nlog, nout, nprint, nrig   \* what has been observed already
tvars == <<appvars, tr, l, busy, nlog, nout, nprint, nrig>>
seen == <<nlog, nout, nprint, nrig>>

T == Traces[tr]
Ev == T.ev
E == Ev[l]
HasObs(i) == "o" \in DOMAIN Ev[i]

TSetUp(w) == <<[k |-> "mycall", ids |-> <<w.my>>], [k |-> "compression", m |-> "TEXT"], [k |-> "bw", m |-> "2300"]>>
TCall(w) == [k |-> "connect", ids |-> <<w.my, w.target>>, path |-> <<>>]
tHello == B("[plusendi-")
tAble == B("-B2FWIHJM$]") \o <<CrB, 70, 70, CrB>>
TIdent(w) == tHello \o w.version \o tAble
Gt == 62
TIsPrompt(t) == t # <<>> /\ t[Len(t)] = Gt
tPttOn == B("PTT ON")
tPttOff == B("PTT OFF")
TPtt(t) == IF t = tPttOn THEN "on" ELSE IF t = tPttOff THEN "off" ELSE "none"

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ busy = FALSE /\ nlog = 0 /\ nout = 0 /\ nprint = 0 /\ nrig = 0 
             /\ given = [serial |-> T.serial, who |-> [my |-> B(T.my), target |-> B(T.target), version |-> B(T.version)]] /\ AppInit

NewLines(b) == Cardinality({i \in 1..Len(b) : b[i] = 10})
Act ==
  CASE E.op = "tx"        -> IF fin THEN UNCHANGED appvars ELSE TncSays(E.b)
    [] E.op = "close"     -> IF fin THEN UNCHANGED appvars ELSE TncGoes
    [] E.op = "dtx"       -> IF dfin THEN UNCHANGED appvars ELSE RemoteSays(E.b)
    [] E.op = "dclose"    -> DataGoes
    [] E.op = "stdin"     -> IF seof THEN UNCHANGED appvars ELSE UserTypes(NewLines(E.b))
    [] E.op = "stdineof"  -> UserEnds
    [] E.op = "radiogone" -> RadioGoes
    [] E.op = "jam"       -> RadioStalls
    [] E.op = "free"      -> RadioGoesOn
    [] E.op \in {"begin", "radio", "wait"} -> UNCHANGED appvars
    [] OTHER -> FALSE
Begin ==
  /\ ~busy /\ l <= Len(Ev) /\ Running
  /\ Act
  /\ IF HasObs(l) THEN busy' = TRUE /\ l' = l ELSE busy' = FALSE /\ l' = l + 1
  /\ UNCHANGED <<tr, seen>>

\* The program moves while the script waits for it, and may move before. What
\* happens between two actions that come at once is told apart only where it matters.
StepOnce ==
  \/ Running /\ (Control \/ MgrRead(Len(inb)) \/ DataArrive \/ (rd.k = "pend" /\ ReadData(Len(din))) \/ ReadEnd
                 \/ (wr.k = "pend" /\ WriteStep(Len(wr.b)))) /\ Hear /\ UNCHANGED pvars
  \/ Program
NextObs == IF \E j \in l..Len(Ev) : HasObs(j)
           THEN CHOOSE j \in l..Len(Ev) : HasObs(j) /\ \A k \in l..(j-1) : ~HasObs(k) ELSE 0
\* The radio is told what was seen to reach it.
Heard == IF NextObs = 0 THEN <<>> ELSE Ev[NextObs].o.rig
Told == LET n == 3 * (Len(rout) - nrig) IN IF n + 3 <= Len(Heard) THEN SubSeq(Heard, n + 1, n + 3) ELSE <<>>
Key(x) == IF x = "on" THEN <<84, 88, 59>> ELSE <<82, 88, 59>>
RigStep == \E k \in 1..Len(pttlog) : ("rig" \in Chk => Told = Key(pttlog[k])) /\ ("rig" \notin Chk => k = Len(pttlog)) /\ RigTell(k)
Step == l <= Len(Ev) /\ (StepOnce \/ RigStep) /\ UNCHANGED <<tr, l, busy, seen>>

-----------------------------------------------------------------------------
Lines == [n \in 1..(Len(log) - nlog) |-> Text(cmds[log[nlog + n]].c)]

\* Bytes that are not UTF-8 may be shown in any way, on their own line.
Cont(x) == x \in 128..191
RECURSIVE Utf8(_, _)
Utf8(b, i) ==
  LET At(k) == IF i + k <= Len(b) THEN b[i + k] ELSE 0 IN
  IF i > Len(b) THEN TRUE
  ELSE IF b[i] < 128 THEN Utf8(b, i + 1)
  ELSE IF b[i] \in 194..223 THEN Cont(At(1)) /\ Utf8(b, i + 2)
  ELSE IF b[i] \in 224..239 THEN /\ Cont(At(1)) /\ Cont(At(2))
                                 /\ (b[i] = 224 => At(1) >= 160) /\ (b[i] = 237 => At(1) < 160) /\ Utf8(b, i + 3)
  ELSE IF b[i] \in 240..244 THEN /\ Cont(At(1)) /\ Cont(At(2)) /\ Cont(At(3))
                                 /\ (b[i] = 240 => At(1) >= 144) /\ (b[i] = 244 => At(1) < 144) /\ Utf8(b, i + 4)
  ELSE FALSE
Nl == 10
\* Where the n-th end of line in b from i on is, or 0.
RECURSIVE EndOfLine(_, _, _)
EndOfLine(b, i, n) ==
  IF i > Len(b) THEN 0
  ELSE IF b[i] = Nl THEN IF n = 1 THEN i ELSE EndOfLine(b, i + 1, n - 1)
  ELSE EndOfLine(b, i + 1, n)
\* Output b from i on is lines q from k on, each with its end.
RECURSIVE Shows(_, _, _, _)
Shows(b, i, q, k) ==
  IF k > Len(q) THEN i = Len(b) + 1
  ELSE IF Utf8(q[k], 1)
  THEN LET e == i + Len(q[k]) IN
       e <= Len(b) /\ b[e] = Nl /\ SubSeq(b, i, e - 1) = q[k] /\ Shows(b, e + 1, q, k + 1)
  ELSE LET e == EndOfLine(b, i, 1 + NewLines(q[k])) IN e > 0 /\ Shows(b, e + 1, q, k + 1)

RECURSIVE Keys(_)
Keys(q) == IF q = <<>> THEN <<>> ELSE Key(Head(q)) \o Keys(Tail(q))

tRelease == B("DISCONNECT")
Agrees(f, o) ==
  CASE f = "lines"  -> /\ o.junk = <<>>
                       \* a program that has ended may have let go of the link
                       /\ o.lines = Lines \/ (~Running /\ o.lines = Append(Lines, tRelease))
    [] f = "out"    -> o.out = SubSeq(dout, nout + 1, Len(dout))
    \* the log goes to the same place
    [] f = "print"  -> T.log \/ Shows(o.print, 1, SubSeq(printed, nprint + 1, Len(printed)), 1)
    [] f = "status" -> o.status = IF Running THEN "run" ELSE code
    [] f = "rig"    -> o.rig = Keys(SubSeq(rout, nrig + 1, Len(rout)))
    [] f = "panics" -> ~o.panics
    [] f = "spin"   -> ~o.spin
\* Whether the program has ended is always compared.
Observe ==
  /\ busy /\ AppQuiet
  /\ (E.o.status = "run") = Running
  /\ \A f \in Chk : Agrees(f, E.o)
  /\ busy' = FALSE /\ l' = l + 1
  /\ nlog' = Len(log) /\ nout' = Len(dout) /\ nprint' = Len(printed) /\ nrig' = Len(rout)
  /\ UNCHANGED <<appvars, tr>>

TraceNext == Begin \/ Step \/ Observe
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Where == PrintT(<<"at", T.id, l, busy>>)
Reached == l > Len(Ev) => PrintT(<<"accept", T.id>>)
TraceInv == AppSetUp /\ AppFails /\ AppEnds /\ AppPrompt /\ AppRig
=============================================================================
