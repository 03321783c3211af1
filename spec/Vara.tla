-------------------------------- MODULE Vara --------------------------------
(* The VARA TNC client (src/modem/vara.rs): the task that manages the control *)
(* connection, the callers that issue commands, connect, the stream, the task *)
(* that releases a dropped stream and the watcher that ends it; and around    *)
(* them the TNC, the network and the user, who may do anything at any time.   *)
(*                                                                            *)
(* One action per atomic step of the code (a task runs from await to await).  *)
(* The alphabet of the control connection is a parameter: the model checker   *)
(* uses a few symbols, trace validation uses bytes and the full line grammar  *)
(* of Wire.tla.                                                               *)
EXTENDS Naturals, Sequences, FiniteSets

\* Data on the data connection: plain sequences here. Trace validation overrides
\* these to represent long data by its runs (see TraceVara).
DataLen(b) == Len(b)
DataHead(b, n) == SubSeq(b, 1, n)
DataRest(b, n) == SubSeq(b, n + 1, Len(b))
DataJoin(a, b) == a \o b

CONSTANTS CR,           \* the symbol that ends a line
          Meaning(_)    \* what a line (without CR) says: [k |-> kind, ...]

VARIABLES
  mgr,     \* manage_modem_thread: "run", "drain" (command channel closed), "dead"
  buf,     \* its update buffer: symbols read and not yet processed
  inb,     \* symbols the TNC sent and the client has not read
  fin,     \* the TNC closed its side of the control connection
  sq,      \* senders waiting for room in the command channel, first come first
  ch,      \* the command channel, capacity 1
  rq,      \* commands written and not yet answered (the response queue)
  cmds,    \* every command ever submitted, with its fate
  log,     \* ids of the commands written to the TNC, in order
  reps,    \* replies taken from the TNC for a command, in order
  handle,  \* "live" or "dropped"
  st,      \* the status the getters report
  conn,    \* latest connection report [v, ver], and how many said disconnected
  rel,     \* task releasing a dropped stream: "none", "fire", "call"
  relc,    \*   the DISCONNECT it submitted
  s,       \* connect call / stream / explicit end
  watch,   \* watcher of the open stream: [on, seen, down]
  rd, wr,  \* read and write under way, or its result
  dnet,    \* data the TNC sent that is still on its way, piece by piece
  din,     \* data bytes that have arrived and the client has not read
  dfin,    \* the TNC closed its side of the data connection
  dout,    \* data bytes written by the client
  dshut    \* the client shut its data side down

mvars == <<mgr, buf, inb, fin, rq, log, reps, st, conn>>
qvars == <<sq, ch, cmds>>
svars == <<rel, relc, s, watch>>
dvars == <<rd, wr, dnet, din, dfin, dout, dshut>>
vars  == <<mgr, buf, inb, fin, sq, ch, rq, cmds, log, reps, handle, st, conn,
           rel, relc, s, watch, rd, wr, dnet, din, dfin, dout, dshut>>

Idle == [k |-> "none"]
NoSession == [ph |-> "none", cid |-> 0, seen |-> 0, lost |-> 0, con |-> "none", end |-> "none"]
Zero == <<48>>

Init ==
  /\ mgr = "run" /\ buf = <<>> /\ inb = <<>> /\ fin = FALSE
  /\ sq = <<>> /\ ch = <<>> /\ rq = <<>> /\ cmds = <<>> /\ log = <<>> /\ reps = <<>>
  /\ handle = "live"
  /\ st = [busy |-> FALSE, ptt |-> FALSE, buf |-> Zero, hb |-> FALSE, regs |-> {}]
  /\ conn = [v |-> "disc", ver |-> 0, lost |-> 0]
  /\ rel = "none" /\ relc = 0 /\ s = NoSession
  /\ watch = [on |-> FALSE, seen |-> 0, down |-> FALSE]
  /\ rd = Idle /\ wr = Idle /\ dnet = <<>> /\ din = <<>> /\ dfin = FALSE /\ dout = <<>> /\ dshut = FALSE

-----------------------------------------------------------------------------
(* Commands: VaraTnc::send_command and the command channel.                   *)

Settled(i) == cmds[i].st \in {"ok", "wrong", "lost"}
Succeeded(i) == cmds[i].st = "ok"

\* A call asks for room in the channel; when the manager is gone it fails at once.
Submit(c, own) ==
  IF mgr = "dead"
  THEN /\ cmds' = Append(cmds, [c |-> c, own |-> own, st |-> "lost"])
       /\ UNCHANGED sq
  ELSE /\ cmds' = Append(cmds, [c |-> c, own |-> own, st |-> "queued"])
       /\ sq' = Append(sq, Len(cmds) + 1)
NewId == Len(cmds) + 1

Without(q, i) == SelectSeq(q, LAMBDA x : x # i)

\* The caller gives up. What is in the channel or on the wire stays there.
Forget(i) ==
  /\ cmds' = [cmds EXCEPT ![i].st = IF Settled(i) THEN @ ELSE "cancel"]
  /\ sq' = Without(sq, i)

ChanPush ==
  /\ sq # <<>> /\ ch = <<>> /\ mgr = "run"
  /\ ch' = <<Head(sq)>> /\ sq' = Tail(sq)
  /\ cmds' = [cmds EXCEPT ![Head(sq)].st = "chan"]
  /\ UNCHANGED <<mvars, handle, svars, dvars>>

-----------------------------------------------------------------------------
(* The manager.                                                               *)

\* Takes a command and writes it.
MgrTake ==
  /\ mgr = "run" /\ ch # <<>>
  /\ LET i == ch[1] IN
       /\ log' = Append(log, i)
       /\ rq' = Append(rq, i)
       /\ cmds' = [cmds EXCEPT ![i].st = IF @ = "chan" THEN "sent" ELSE @]
  /\ ch' = <<>>
  /\ UNCHANGED <<mgr, buf, inb, fin, reps, st, conn, sq, handle, svars, dvars>>

HasLine == \E i \in 1..Len(buf) : buf[i] = CR
FirstCR == CHOOSE i \in 1..Len(buf) : buf[i] = CR /\ \A j \in 1..(i-1) : buf[j] # CR

\* Reads n symbols; whole lines are processed before it reads again.
MgrRead(n) ==
  /\ mgr \in {"run", "drain"} /\ ~HasLine
  /\ mgr = "drain" => rq # <<>>
  /\ n \in 1..Len(inb)
  /\ buf' = buf \o SubSeq(inb, 1, n)
  /\ inb' = SubSeq(inb, n + 1, Len(inb))
  /\ UNCHANGED <<mgr, fin, rq, log, reps, st, conn, qvars, handle, svars, dvars>>

\* The manager ends: everything outstanding fails, now and later.
Dies(qs) ==
  /\ mgr' = "dead"
  /\ cmds' = [i \in DOMAIN cmds |->
                IF cmds[i].st \in {"queued", "chan", "sent"} THEN [cmds[i] EXCEPT !.st = "lost"] ELSE cmds[i]]
  /\ sq' = <<>> /\ ch' = <<>> /\ rq' = <<>>

Report(m) ==
  CASE m.k = "hb"   -> st' = [st EXCEPT !.hb = TRUE] /\ UNCHANGED conn
    [] m.k = "buf"  -> st' = [st EXCEPT !.buf = m.n] /\ UNCHANGED conn
    [] m.k = "busy" -> st' = [st EXCEPT !.busy = m.on] /\ UNCHANGED conn
    [] m.k = "ptt"  -> st' = [st EXCEPT !.ptt = m.on] /\ UNCHANGED conn
    [] m.k = "reg"  -> st' = [st EXCEPT !.regs = @ \cup {m.id}] /\ UNCHANGED conn
    [] m.k = "conn" -> conn' = [v |-> m.v, ver |-> conn.ver + 1, lost |-> conn.lost + IF m.v = "disc" THEN 1 ELSE 0]
                         /\ UNCHANGED st

\* Processes one complete line.
MgrLine ==
  /\ mgr \in {"run", "drain"} /\ HasLine
  /\ LET i == FirstCR
         m == Meaning(SubSeq(buf, 1, i - 1))
     IN /\ buf' = SubSeq(buf, i + 1, Len(buf))
        /\ CASE m.k = "bad" -> Dies(<<>>) /\ UNCHANGED <<st, conn, log, reps>>
             [] m.k \in {"ok", "wrong"} ->
                  /\ UNCHANGED <<st, conn, log, mgr, sq, ch>>
                  /\ IF rq = <<>> THEN UNCHANGED <<rq, cmds, reps>>     \* nobody asked
                     ELSE /\ rq' = Tail(rq)
                          /\ reps' = Append(reps, m.k)
                          /\ cmds' = [cmds EXCEPT ![Head(rq)].st = IF @ = "sent" THEN m.k ELSE @]
             [] OTHER -> Report(m) /\ UNCHANGED <<mgr, qvars, rq, log, reps>>
  /\ UNCHANGED <<inb, fin, handle, svars, dvars>>

\* End of the control connection. An unfinished line has no effect.
MgrEof ==
  /\ mgr \in {"run", "drain"} /\ ~HasLine /\ inb = <<>> /\ fin
  /\ mgr = "drain" => rq # <<>>
  /\ Dies(<<>>)
  /\ UNCHANGED <<buf, inb, fin, log, reps, st, conn, handle, svars, dvars>>

\* All senders are gone: the handle, waiting callers and the release task.
MgrDrain ==
  /\ mgr = "run" /\ ~HasLine
  /\ handle = "dropped" /\ rel = "none" /\ sq = <<>> /\ ch = <<>>
  /\ mgr' = "drain"
  /\ UNCHANGED <<buf, inb, fin, rq, log, reps, st, conn, qvars, handle, svars, dvars>>

MgrExit ==
  /\ mgr = "drain" /\ rq = <<>> /\ ~HasLine
  /\ mgr' = "dead"
  /\ UNCHANGED <<buf, inb, fin, rq, log, reps, st, conn, qvars, handle, svars, dvars>>

-----------------------------------------------------------------------------
(* Release of a dropped stream.                                               *)

RelFire ==
  /\ rel = "fire"
  /\ Submit([k |-> "disconnect"], "rel")
  /\ rel' = "call" /\ relc' = NewId
  /\ UNCHANGED <<mvars, ch, handle, s, watch, dvars>>

RelDone ==
  /\ rel = "call" /\ Settled(relc)
  /\ rel' = "none"
  /\ UNCHANGED <<mvars, qvars, handle, relc, s, watch, dvars>>

\* The stream's link has been reported down, whatever has been reported since.
Ended == conn.lost > s.lost
\* What dropping the stream sets off: nothing if its link has been reported down.
Release == rel' = IF Ended THEN rel ELSE "fire"

-----------------------------------------------------------------------------
(* Connect.                                                                   *)

\* After the release of an earlier stream: forget what earlier sessions
\* reported and left behind, and ask.
ConnSend ==
  /\ s.ph = "await" /\ rel = "none"
  /\ s' = [s EXCEPT !.ph = "cmd", !.cid = NewId, !.seen = conn.ver]
  /\ din' = <<>>
  /\ Submit(s.cmd, "con")
  /\ UNCHANGED <<mvars, ch, handle, rel, relc, watch, rd, wr, dnet, dfin, dout, dshut>>

ConnReply ==
  /\ s.ph = "cmd" /\ Settled(s.cid)
  /\ s' = IF Succeeded(s.cid) THEN [s EXCEPT !.ph = "wait"] ELSE [NoSession EXCEPT !.con = "err"]
  /\ UNCHANGED <<mvars, qvars, handle, rel, relc, watch, dvars>>

ConnWait ==
  /\ s.ph = "wait"
  /\ \/ /\ conn.ver > s.seen
        /\ IF conn.v = "conn"
           THEN /\ s' = [s EXCEPT !.ph = "open", !.con = "ok", !.seen = conn.ver, !.lost = conn.lost]
                /\ watch' = [on |-> TRUE, seen |-> conn.ver, down |-> FALSE]
           ELSE s' = [NoSession EXCEPT !.con = "err"] /\ UNCHANGED watch
     \/ /\ conn.ver = s.seen /\ mgr = "dead"
        /\ s' = [NoSession EXCEPT !.con = "err"] /\ UNCHANGED watch
  /\ UNCHANGED <<mvars, qvars, handle, rel, relc, dvars>>

\* The watcher looks at the latest report; others may pass it by, but not that
\* the link has ended.
WatchStep ==
  /\ watch.on /\ ~watch.down
  /\ \/ conn.ver > watch.seen /\ watch' = [watch EXCEPT !.seen = conn.ver, !.down = Ended]
     \/ conn.ver = watch.seen /\ mgr = "dead" /\ watch' = [watch EXCEPT !.down = TRUE]
  /\ UNCHANGED <<mvars, qvars, handle, rel, relc, s, dvars>>

-----------------------------------------------------------------------------
(* The stream.                                                                *)

ReadData(n) ==
  /\ rd.k = "pend" /\ n \in 1..DataLen(din) /\ n <= rd.n
  /\ rd' = [k |-> "data", b |-> DataHead(din, n)]
  /\ din' = DataRest(din, n)
  /\ UNCHANGED <<mvars, qvars, handle, svars, wr, dnet, dfin, dout, dshut>>

ReadEnd ==
  /\ rd.k = "pend" /\ din = <<>> /\ (watch.down \/ (dfin /\ dnet = <<>>))
  /\ rd' = [k |-> "eof"]
  /\ UNCHANGED <<mvars, qvars, handle, svars, wr, dnet, din, dfin, dout, dshut>>

WriteStep(n) ==
  /\ wr.k = "pend"
  /\ IF watch.down THEN wr' = [k |-> "aborted", n |-> 0] /\ UNCHANGED <<dout, dshut>>
     ELSE CASE wr.w = "write" ->
                 IF dshut THEN wr' = [k |-> "err", n |-> 0] /\ UNCHANGED <<dout, dshut>>
                 ELSE /\ n \in 1..DataLen(wr.b)
                      /\ wr' = [k |-> "ok", n |-> n]
                      /\ dout' = DataJoin(dout, DataHead(wr.b, n)) /\ UNCHANGED dshut
            [] wr.w = "flush" -> wr' = [k |-> "ok", n |-> 0] /\ UNCHANGED <<dout, dshut>>
            \* once more when both sides are closed already: up to the system
            [] wr.w = "shutdown" ->
                 /\ wr' = IF dshut /\ dfin /\ n = 1 THEN [k |-> "err", n |-> 0] ELSE [k |-> "ok", n |-> 0]
                 /\ dshut' = TRUE /\ UNCHANGED dout
            [] OTHER -> dshut /\ wr' = [k |-> "err", n |-> 0] /\ UNCHANGED <<dout, dshut>>
                        \* "fill": the TNC does not read, so it waits
  /\ UNCHANGED <<mvars, qvars, handle, svars, rd, dnet, din, dfin>>

EndReply ==
  /\ s.ph = "end" /\ Settled(s.cid)
  /\ IF Succeeded(s.cid)
     THEN s' = [NoSession EXCEPT !.end = "ok"] /\ UNCHANGED rel
     ELSE s' = [NoSession EXCEPT !.end = "err"] /\ Release
  /\ watch' = [watch EXCEPT !.on = FALSE]
  /\ UNCHANGED <<mvars, qvars, handle, relc, dvars>>

-----------------------------------------------------------------------------
(* The user.                                                                  *)

InSession == s.ph # "none"
ApiCalls == {i \in DOMAIN cmds : cmds[i].own = "api"}
Pending == {i \in ApiCalls : cmds[i].st \in {"queued", "chan", "sent"}}

Call(c) ==
  /\ handle = "live" /\ ~InSession
  /\ Submit(c, "api")
  /\ UNCHANGED <<mvars, ch, handle, svars, dvars>>

Cancel(i) ==
  /\ i \in Pending
  /\ Forget(i)
  /\ UNCHANGED <<mvars, ch, handle, svars, dvars>>

Connect(c) ==
  /\ handle = "live" /\ ~InSession /\ Pending = {}
  /\ s' = [ph |-> "await", cid |-> 0, seen |-> 0, lost |-> 0, con |-> "none", end |-> "none", cmd |-> c]
  /\ UNCHANGED <<mvars, qvars, handle, rel, relc, watch, dvars>>

ConnectCancel ==
  /\ s.ph \in {"await", "cmd", "wait"}
  /\ IF s.ph = "cmd" THEN Forget(s.cid) ELSE UNCHANGED <<cmds, sq>>
  /\ s' = NoSession
  /\ UNCHANGED <<mvars, ch, handle, rel, relc, watch, dvars>>

Read(n) ==
  /\ s.ph = "open" /\ rd.k = "none"
  /\ rd' = [k |-> "pend", n |-> n]
  /\ UNCHANGED <<mvars, qvars, handle, svars, wr, dnet, din, dfin, dout, dshut>>

ReadCancel ==
  /\ rd.k = "pend"
  /\ rd' = Idle
  /\ UNCHANGED <<mvars, qvars, handle, svars, wr, dnet, din, dfin, dout, dshut>>

Write(w, b) ==
  /\ s.ph = "open" /\ wr.k = "none"
  /\ wr' = [k |-> "pend", w |-> w, b |-> b]
  /\ UNCHANGED <<mvars, qvars, handle, svars, rd, dnet, din, dfin, dout, dshut>>

StreamDrop ==
  /\ s.ph = "open"
  /\ s' = NoSession /\ Release
  /\ watch' = [watch EXCEPT !.on = FALSE]
  /\ rd' = Idle /\ wr' = Idle
  /\ UNCHANGED <<mvars, qvars, handle, relc, dnet, din, dfin, dout, dshut>>

End(c) ==
  /\ s.ph = "open"
  /\ s' = [s EXCEPT !.ph = "end", !.cid = NewId, !.con = "none"]
  /\ Submit(c, "end")
  /\ rd' = Idle /\ wr' = Idle
  /\ UNCHANGED <<mvars, ch, handle, rel, relc, watch, dnet, din, dfin, dout, dshut>>

\* Giving up on disconnect or abort drops the stream.
EndCancel ==
  /\ s.ph = "end"
  /\ Forget(s.cid)
  /\ s' = NoSession /\ Release
  /\ watch' = [watch EXCEPT !.on = FALSE]
  /\ UNCHANGED <<mvars, ch, handle, relc, dvars>>

HandleDrop ==
  /\ handle = "live" /\ ~InSession /\ Pending = {}
  /\ handle' = "dropped"
  /\ UNCHANGED <<mvars, qvars, svars, dvars>>

-----------------------------------------------------------------------------
(* The TNC and the network.                                                   *)

TncSend(b) ==
  /\ ~fin
  /\ inb' = inb \o b
  /\ UNCHANGED <<mgr, buf, fin, rq, log, reps, st, conn, qvars, handle, svars, dvars>>

TncClose ==
  /\ fin' = TRUE
  /\ UNCHANGED <<mgr, buf, inb, rq, log, reps, st, conn, qvars, handle, svars, dvars>>

DataSend(b) ==
  /\ ~dfin
  /\ dnet' = Append(dnet, b)
  /\ UNCHANGED <<mvars, qvars, handle, svars, rd, wr, din, dfin, dout, dshut>>
DataArrive ==
  /\ dnet # <<>>
  /\ din' = DataJoin(din, Head(dnet)) /\ dnet' = Tail(dnet)
  /\ UNCHANGED <<mvars, qvars, handle, svars, rd, wr, dfin, dout, dshut>>

DataClose ==
  /\ dfin' = TRUE
  /\ UNCHANGED <<mvars, qvars, handle, svars, rd, wr, dnet, din, dout, dshut>>

-----------------------------------------------------------------------------
\* The client's own steps.
Max2(a, b) == IF a >= b THEN a ELSE b
Control == ChanPush \/ MgrTake \/ MgrLine \/ MgrEof \/ MgrDrain \/ MgrExit
           \/ RelFire \/ RelDone \/ ConnSend \/ ConnReply \/ ConnWait \/ WatchStep \/ EndReply
Internal == Control \/ (\E n \in 1..Len(inb) : MgrRead(n)) \/ (\E n \in 1..DataLen(din) : ReadData(n))
            \/ DataArrive \/ ReadEnd \/ (\E n \in 0..(IF wr.k = "pend" THEN Max2(1, DataLen(wr.b)) ELSE 0) : WriteStep(n))

\* Nothing is left for the client to do.
Quiet ==
  /\ ~(sq # <<>> /\ ch = <<>> /\ mgr = "run")
  /\ ~(mgr = "run" /\ ch # <<>>)
  /\ ~(mgr \in {"run", "drain"} /\ (HasLine \/ ((inb # <<>> \/ fin) /\ (mgr = "drain" => rq # <<>>))))
  /\ ~(mgr = "run" /\ handle = "dropped" /\ rel = "none" /\ sq = <<>> /\ ch = <<>>)
  /\ ~(mgr = "drain" /\ rq = <<>>)
  /\ rel # "fire" /\ ~(rel = "call" /\ Settled(relc))
  /\ ~(s.ph = "await" /\ rel = "none")
  /\ ~(s.ph \in {"cmd", "end"} /\ Settled(s.cid))
  /\ ~(s.ph = "wait" /\ (conn.ver > s.seen \/ mgr = "dead"))
  /\ ~(watch.on /\ ~watch.down /\ (conn.ver > watch.seen \/ mgr = "dead"))
  /\ dnet = <<>>
  /\ ~(rd.k = "pend" /\ (din # <<>> \/ watch.down \/ dfin))
  /\ ~(wr.k = "pend" /\ (watch.down \/ dshut \/ wr.w # "fill"))

-----------------------------------------------------------------------------
(* Properties of every reachable state (ids as in properties.jsonl).          *)

\* C01: the n-th reply settles the n-th command written, and no other does.
Pairing ==
  /\ \A n \in 1..Len(log) : LET c == cmds[log[n]] IN
       /\ n <= Len(reps) => c.st \in {reps[n], "cancel"}
       /\ n > Len(reps) => c.st \in {"sent", "lost", "cancel"}
  /\ \A i \in DOMAIN cmds : cmds[i].st \in {"ok", "wrong", "sent"} => \E n \in 1..Len(log) : log[n] = i
\* C01: each at most once, in the order they were accepted.
InOrder == \A m, n \in 1..Len(log) : m < n => log[m] < log[n]
Queues ==
  /\ Len(ch) <= 1
  /\ mgr # "dead" => rq = SubSeq(log, Len(reps) + 1, Len(log))
  /\ \A i \in DOMAIN cmds : cmds[i].st = "queued" <=> \E n \in 1..Len(sq) : sq[n] = i

\* C05, C06: nothing waits for a dead manager.
NoneHangs == mgr = "dead" => \A i \in DOMAIN cmds : cmds[i].st \notin {"queued", "chan", "sent"}

\* C09: a stream is down only when its link was reported down or control is lost,
\* and then always, once the client has come to rest.
DownOnlyIfReported == watch.on /\ watch.down => mgr = "dead" \/ Ended
DownIfReported == watch.on /\ Quiet /\ Ended => watch.down
=============================================================================
