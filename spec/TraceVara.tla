------------------------------ MODULE TraceVara ------------------------------
(* Trace validation: every trace recorded from the real client by the         *)
(* harness must be a behaviour of Vara.tla. An event carries one action of    *)
(* the user or the TNC; the client's own steps are not recorded and are       *)
(* inferred; where an event carries an observation ("o"), the client has come *)
(* to rest and everything observable in the fields named in Chk must agree.   *)
EXTENDS Vara, Wire, Json, TLC, TLCExt, IOUtils

\* Data is given by its runs <<byte, count>>, adjacent runs of different bytes:
\* exact, and short even for data larger than the network takes at once.
RECURSIVE RunSize(_)
RunSize(b) == IF b = <<>> THEN 0 ELSE b[1][2] + RunSize(Tail(b))
RECURSIVE RunPart(_, _)
RunPart(b, n) ==
  IF n = 0 THEN <<>>
  ELSE IF b[1][2] >= n THEN << <<b[1][1], n>> >>
  ELSE <<b[1]>> \o RunPart(Tail(b), n - b[1][2])
RECURSIVE RunRest(_, _)
RunRest(b, n) ==
  IF n = 0 THEN b
  ELSE IF b[1][2] > n THEN << <<b[1][1], b[1][2] - n>> >> \o Tail(b)
  ELSE RunRest(Tail(b), n - b[1][2])
RunJoin(a, b) ==
  IF a = <<>> \/ b = <<>> THEN a \o b
  ELSE LET x == a[Len(a)] IN
    IF x[1] # b[1][1] THEN a \o b
    ELSE SubSeq(a, 1, Len(a) - 1) \o << <<x[1], x[2] + b[1][2]>> >> \o Tail(b)

File == JsonDeserialize(IOEnv.TRACES)
Traces == File.traces
Chk == {File.chk[i] : i \in 1..Len(File.chk)}

VARIABLES tr,      \* the trace
          l,       \* the next event
          busy,    \* its action has been taken, its observation is due
          nlog,    \* commands already seen by the TNC
          filled,  \* the written bytes are no longer compared one by one
          gone     \* the TNC has left altogether

tvars == <<vars, tr, l, busy, nlog, filled, gone>>
aux == <<tr, nlog>>

Ev == Traces[tr].ev
E == Ev[l]
HasObs(i) == "o" \in DOMAIN Ev[i]
\* The next observation at or after event i (0: none).
NextObs(i) == IF \E j \in i..Len(Ev) : HasObs(j)
              THEN CHOOSE j \in i..Len(Ev) : HasObs(j) /\ \A k \in i..(j-1) : ~HasObs(k)
              ELSE 0

TraceInit ==
  /\ tr \in 1..Len(Traces)
  /\ l = 1 /\ busy = FALSE /\ nlog = 0 /\ filled = FALSE /\ gone = FALSE
  /\ Init

Op(name) == ~busy /\ l <= Len(Ev) /\ E.op = name
ApiId(n) == CHOOSE i \in ApiCalls : Cardinality({j \in ApiCalls : j <= i}) = n

Cmd(c) == IF c.k = "mycall" THEN [k |-> c.k, ids |-> c.ids]
          ELSE IF c.k \in {"bw", "compression"} THEN [k |-> c.k, m |-> c.m] ELSE [k |-> c.k]

Act ==
  \/ Op("call") /\ Call(Cmd(E.cmd))
  \/ Op("cancel") /\ Cancel(ApiId(E.id))
  \/ Op("connect") /\ Connect([k |-> "connect", ids |-> <<E.from, E.to>>, path |-> <<>>])
  \/ Op("cconnect") /\ ConnectCancel
  \/ Op("tx") /\ IF fin THEN UNCHANGED vars ELSE TncSend(E.b)
  \/ Op("close") /\ TncClose
  \/ Op("dtx") /\ IF dfin THEN UNCHANGED vars ELSE DataSend(E.b)
  \/ Op("dclose") /\ DataClose
  \/ Op("read") /\ Read(E.n)
  \/ Op("cread") /\ ReadCancel
  \/ Op("write") /\ Write("write", E.b)
  \/ Op("writev") /\ Write("write", E.b)
  \/ Op("flush") /\ Write("flush", <<>>)
  \/ Op("shutdown") /\ Write("shutdown", <<>>)
  \/ Op("fill") /\ Write("fill", <<>>)
  \/ Op("drop") /\ StreamDrop
  \/ Op("end") /\ End([k |-> E.how])
  \/ Op("cend") /\ EndCancel
  \/ Op("drophandle") /\ HandleDrop
  \* Nothing happens to the client here.
  \/ l <= Len(Ev) /\ ~busy /\ E.op \in {"skip", "idle", "stall", "unstall", "wait"} /\ UNCHANGED vars

Begin ==
  /\ Act
  /\ filled' = (filled \/ E.op = "fill")
  /\ gone' = (gone \/ (E.op = "close" /\ "how" \in DOMAIN E /\ E.how # "half"))
  /\ IF HasObs(l) THEN busy' = TRUE /\ l' = l ELSE busy' = FALSE /\ l' = l + 1
  /\ UNCHANGED aux

\* How much a read or write takes is the network's choice: take it from the trace.
Seen(f) == LET j == NextObs(l) IN IF j = 0 THEN [k |-> "none"] ELSE Ev[j].o[f]
ReadLen == IF Seen("rd").k = "data" THEN DataLen(Seen("rd").b) ELSE Min(rd.n, DataLen(din))
WriteLen == IF wr.w = "shutdown" /\ Seen("wr").k = "err" THEN 1 ELSE IF wr.w # "write" THEN 0 ELSE IF Seen("wr").k = "ok" THEN Seen("wr").n ELSE DataLen(wr.b)

Step ==
  /\ l <= Len(Ev)
  /\ \/ Control
     \/ MgrRead(Len(inb))
     \/ DataArrive
     \/ rd.k = "pend" /\ ReadData(ReadLen)
     \/ ReadEnd
     \/ wr.k = "pend" /\ WriteStep(WriteLen)
  /\ UNCHANGED <<tr, l, busy, nlog, filled, gone>>

-----------------------------------------------------------------------------
(* What can be observed.                                                      *)

CallState(c) == CASE c \in {"queued", "chan", "sent"} -> "pend"
                  [] c = "ok" -> "ok"
                  [] c \in {"wrong", "lost"} -> "err"
                  [] c = "cancel" -> "cancel"
Api == SelectSeq(cmds, LAMBDA c : c.own = "api")
Calls == [i \in 1..Len(Api) |-> CallState(Api[i].st)]
ConState == IF s.ph \in {"await", "cmd", "wait"} THEN "pend" ELSE s.con
EndState == IF s.ph = "end" THEN "pend" ELSE s.end
Lines == [n \in 1..(Len(log) - nlog) |-> Text(cmds[log[nlog + n]].c)]
ToSet(q) == {q[i] : i \in 1..Len(q)}

\* The getters know the station ids the script asked about.
Probes == ToSet(Traces[tr].probes)
Status(o) ==
  /\ o.on = (handle = "live" /\ ~InSession)
  /\ o.on => /\ o.busy = st.busy /\ o.buf = st.buf /\ o.hb = st.hb
             /\ ToSet(o.regs) = st.regs \cap Probes
             /\ ~o.remote

Agrees(f, o) ==
  CASE f = "lines"   -> gone \/ (o.lines = Lines /\ o.junk = <<>>)
    [] f = "calls"   -> o.calls = Calls
    [] f = "st"      -> Status(o.st)
    [] f = "ptt"     -> o.ptt = st.ptt
    [] f = "con"     -> o.con = ConState
    [] f = "end"     -> o.end = EndState
    [] f = "rd"      -> o.rd.k = rd.k /\ (rd.k = "data" => o.rd.b = rd.b)
    [] f = "wr"      -> o.wr.k = wr.k /\ (wr.k = "ok" => o.wr.n = wr.n)
    [] f = "out"     -> filled \/ o.out = dout
    [] f = "ctleof"  -> gone \/ o.ctleof = (mgr = "dead")
    [] f = "dataeof" -> o.dataeof = (handle = "dropped" \/ dshut)
    [] f = "panics"  -> o.panics = Traces[tr].p0
    [] f = "spin"    -> ~o.spin

Observe ==
  /\ busy /\ Quiet
  /\ \A f \in Chk : Agrees(f, E.o)
  /\ busy' = FALSE /\ l' = l + 1
  /\ nlog' = Len(log)
  /\ st' = IF E.o.st.on THEN [st EXCEPT !.hb = FALSE] ELSE st
  /\ rd' = IF rd.k = "pend" THEN rd ELSE Idle
  /\ wr' = IF wr.k = "pend" THEN wr ELSE Idle
  /\ dout' = <<>>
  /\ UNCHANGED <<mgr, buf, inb, fin, qvars, rq, log, reps, conn, handle, svars, dnet, din, dfin, dshut, tr, filled, gone>>

TraceNext == Begin \/ Step \/ Observe
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* A trace is accepted when all of its events have been matched; Where, used
\* only to explain a rejection, prints how far each trace got.
Where == PrintT(<<"at", Traces[tr].id, l, busy>>)
Reached == l > Len(Ev) => PrintT(<<"accept", Traces[tr].id>>)

\* The properties of the model hold along every real execution too.
TraceInv == Pairing /\ InOrder /\ Queues /\ NoneHangs
=============================================================================
