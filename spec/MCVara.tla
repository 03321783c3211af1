------------------------------- MODULE MCVara -------------------------------
(* Exhaustive exploration of Vara.tla with a small alphabet, and its          *)
(* properties over every interleaving and every fragmentation.                *)
EXTENDS Vara, TLC

CONSTANTS MaxCalls, MaxSessions, MaxLines, MaxData, Lines,
          Cancels        \* whether callers may give up

MCCR == "CR"
MCMeaning(b) ==
  CASE b = <<"OK">> -> [k |-> "ok"]
    [] b = <<"NO">> -> [k |-> "wrong"]
    [] b = <<"ON">> -> [k |-> "busy", on |-> TRUE]
    [] b = <<"DISC">> -> [k |-> "conn", v |-> "disc"]
    [] b = <<"CONN">> -> [k |-> "conn", v |-> "conn"]
    [] b = <<"PEND">> -> [k |-> "conn", v |-> "pend"]
    [] OTHER -> [k |-> "bad"]

VARIABLES
  nl, nd,     \* lines and data symbols the TNC has sent
  sent,       \* everything the TNC sent on the control connection
  ses,        \* sessions begun
  replied,    \* replies sent
  callee,     \* call the TNC accepted and has not yet reported on, or 0
  link,       \* session the TNC believes connected, or 0
  ends,       \* per session: how the user left it, and the link state then
  got         \* data read, per session

hist == <<nl, nd, sent, ses, replied, callee, link, ends, got>>
mcvars == <<vars, hist>>

MCInit == Init /\ nl = 0 /\ nd = 0 /\ sent = <<>> /\ ses = 0 /\ replied = 0 /\ callee = 0 /\ link = 0 /\ ends = <<>> /\ got = <<>>

\* What the k-th reply answers.
Asked(k) == IF Len(log) >= k THEN cmds[log[k]].own ELSE "nothing"
CallOf(k) == cmds[log[k]].c.n

\* The TNC sends whole lines; how they are cut into reads is MgrRead's choice.
\* Where data is exchanged the TNC is a TNC: it answers only what it was asked
\* takes one call at a time and reports only on a call it has accepted.
Proper(x) == MaxData > 0 =>
  /\ x \in {"OK", "NO"} => Asked(replied + 1) # "nothing"
  /\ x = "OK" /\ Asked(replied + 1) = "con" => link = 0
  /\ x = "NO" /\ Asked(replied + 1) \in {"rel", "end"} => link = 0
  /\ x = "CONN" => callee > 0
  /\ x = "DISC" => link > 0 \/ callee > 0
Line(x) ==
  /\ nl < MaxLines /\ ~fin /\ Proper(x)
  /\ TncSend(<<x, "CR">>)
  /\ nl' = nl + 1 /\ sent' = sent \o <<x, "CR">>
  /\ replied' = IF x \in {"OK", "NO"} THEN replied + 1 ELSE replied
  /\ callee' = IF x \in {"CONN", "DISC"} THEN 0 ELSE IF x = "OK" /\ Asked(replied + 1) = "con" THEN CallOf(replied + 1) ELSE callee
  /\ link' = IF x = "CONN" THEN callee ELSE IF x = "DISC" THEN 0
             ELSE IF x = "OK" /\ Asked(replied + 1) \in {"rel", "end"} THEN 0 ELSE link
  /\ UNCHANGED <<nd, ses, ends, got>>

Data ==
  /\ nd < MaxData /\ link > 0
  /\ DataSend(<<<<link, nd + 1>>>>)
  /\ nd' = nd + 1
  /\ UNCHANGED <<nl, sent, ses, replied, callee, link, ends, got>>

\* A new call is put through only when the TNC has let go of the one before.
Begin ==
  /\ ses < MaxSessions
  /\ Connect([k |-> "connect", n |-> ses + 1])
  /\ ses' = ses + 1
  /\ ends' = Append(ends, [how |-> "none", down |-> FALSE])
  /\ got' = Append(got, <<>>)
  /\ UNCHANGED <<nl, nd, sent, replied, callee, link>>

Leave(how) == /\ ends' = [ends EXCEPT ![ses] = [how |-> how, down |-> Ended]]
              /\ UNCHANGED <<nl, nd, sent, ses, replied, callee, link, got>>

ApiCalled == Cardinality(ApiCalls)

User ==
  \/ ApiCalled < MaxCalls /\ Call([k |-> "abort"]) /\ UNCHANGED hist
  \/ Cancels /\ (\E i \in Pending : Cancel(i)) /\ UNCHANGED hist
  \/ Begin
  \/ Cancels /\ ConnectCancel /\ Leave("cancel")
  \/ rd.k = "none" /\ MaxData > 0 /\ Read(2) /\ UNCHANGED hist
  \/ wr.k = "none" /\ MaxData > 0 /\ Write("flush", <<>>) /\ UNCHANGED hist
  \/ StreamDrop /\ Leave("drop")
  \/ End([k |-> "disconnect"]) /\ Leave("end")
  \/ Cancels /\ EndCancel /\ Leave("giveup")
  \/ HandleDrop /\ UNCHANGED hist

\* A result is handed to the user, who may then ask again.
Taken ==
  /\ \/ rd.k \in {"data", "eof"} /\ rd' = Idle /\ UNCHANGED wr
     \/ wr.k \notin {"none", "pend"} /\ wr' = Idle /\ UNCHANGED rd
  /\ got' = IF rd.k = "data" /\ rd'.k = "none" THEN [got EXCEPT ![ses] = @ \o rd.b] ELSE got
  /\ UNCHANGED <<mvars, qvars, handle, svars, dnet, din, dfin, dout, dshut, nl, nd, sent, ses, replied, callee, link, ends>>

Tnc == (\E x \in Lines : Line(x)) \/ Data \/ (~fin /\ TncClose /\ UNCHANGED hist)

\* The two connections are not ordered against each other: that data of an
\* earlier session has arrived by the time the next call goes out is assumed.
Own == Internal /\ UNCHANGED hist /\ (s.ph = "await" /\ s'.ph = "cmd" => dnet = <<>>)
MCNext == User \/ Tnc \/ Taken \/ Own
MCSpec == MCInit /\ [][MCNext]_mcvars

Fair ==
  /\ WF_mcvars(ChanPush /\ UNCHANGED hist) /\ WF_mcvars(MgrTake /\ UNCHANGED hist)
  /\ WF_mcvars(MgrLine /\ UNCHANGED hist) /\ WF_mcvars(MgrEof /\ UNCHANGED hist)
  /\ WF_mcvars(MgrDrain /\ UNCHANGED hist) /\ WF_mcvars(MgrExit /\ UNCHANGED hist)
  /\ WF_mcvars(RelFire /\ UNCHANGED hist) /\ WF_mcvars(RelDone /\ UNCHANGED hist)
  /\ WF_mcvars(ConnSend /\ UNCHANGED hist) /\ WF_mcvars(ConnReply /\ UNCHANGED hist)
  /\ WF_mcvars(ConnWait /\ UNCHANGED hist) /\ WF_mcvars(WatchStep /\ UNCHANGED hist)
  /\ WF_mcvars(EndReply /\ UNCHANGED hist)
  /\ WF_mcvars((\E n \in 1..Len(inb) : MgrRead(n)) /\ UNCHANGED hist)
  /\ WF_mcvars(DataArrive /\ UNCHANGED hist)
  /\ WF_mcvars((ReadEnd \/ \E n \in 1..Len(din) : ReadData(n)) /\ UNCHANGED hist)
  /\ WF_mcvars((\E n \in 0..1 : WriteStep(n)) /\ UNCHANGED hist)
MCFair == MCSpec /\ Fair

-----------------------------------------------------------------------------
(* Safety.                                                                    *)

\* What the traces call being at rest is having no step left.
Rests == Quiet <=> ~ENABLED Internal

C01 == Pairing /\ InOrder /\ Queues

\* C03, C04: what has been processed is a prefix of what was sent, cut at a line
\* end, and the status is what those lines say one after the other, however
\* they were read.
Processed == SubSeq(sent, 1, Len(sent) - Len(inb) - Len(buf))
Symbols == SelectSeq(Processed, LAMBDA x : x # "CR")
Last(q, P(_), d) == IF \E i \in 1..Len(q) : P(q[i])
                    THEN q[CHOOSE i \in 1..Len(q) : P(q[i]) /\ \A j \in (i+1)..Len(q) : ~P(q[j])] ELSE d
ConnOf(x) == CASE x = "DISC" -> "disc" [] x = "CONN" -> "conn" [] x = "PEND" -> "pend"
IsConn(x) == x \in {"DISC", "CONN", "PEND"}
C03C04 ==
  /\ buf # <<>> /\ inb = <<>> => sent = Processed \o buf
  /\ st.busy = (\E i \in 1..Len(Symbols) : Symbols[i] = "ON")
  /\ conn.v = ConnOf(Last(Symbols, IsConn, "DISC"))
  /\ conn.ver = Len(SelectSeq(Symbols, IsConn))
  /\ conn.lost = Len(SelectSeq(Symbols, LAMBDA x : x = "DISC"))
  /\ st.ptt = FALSE /\ st.buf = Zero /\ st.regs = {}

\* C05: nothing after a malformed line is acted on, and it ends the session.
C05 == /\ \A i \in 1..Len(Symbols) : Symbols[i] = "BAD" => (i = Len(Symbols) /\ mgr = "dead")
       /\ NoneHangs

\* C08: an open stream was asked for, granted, and reported connected since.
C08 == s.ph = "open" => Succeeded(s.cid) /\ cmds[s.cid].c = [k |-> "connect", n |-> ses]

\* C10: data read belongs to the session that reads it, in order, without gaps.
C10 == /\ \A k \in 1..Len(got) : \A i \in 1..Len(got[k]) : got[k][i][1] = k
       /\ \A k \in 1..Len(got) : \A i \in 1..(Len(got[k]) - 1) : got[k][i + 1][2] = got[k][i][2] + 1

\* C11: requests as they went out, session by session.
Sess(i) == CHOOSE k \in 0..MaxSessions : k = Cardinality({j \in 1..i : cmds[j].own = "con"})
Releases(k) == {n \in 1..Len(log) : cmds[log[n]].own \in {"rel", "end"} /\ Sess(log[n]) = k}
Cons == {i \in DOMAIN cmds : cmds[i].own = "con"}
C11 ==
  /\ \A k \in 1..MaxSessions : Cardinality(Releases(k)) <= 2
  \* once only, unless the TNC refused an explicit end or the user gave up on it
  /\ \A k \in 1..MaxSessions : Cardinality(Releases(k)) = 2 =>
        \/ \E i \in DOMAIN cmds : cmds[i].own = "end" /\ Sess(i) = k /\ cmds[i].st \in {"wrong", "cancel", "lost"}
        \/ \E i \in 1..ses : ends[i].how = "giveup"
\* A release under way holds the next connect back.
C11Order == [][Len(cmds') > Len(cmds) /\ cmds'[Len(cmds')].own = "con" => rel = "none"]_mcvars
\* Dropping a stream whose link is reported down sends nothing; otherwise it
\* sets the release off.
C11Quiet == /\ [][rel = "none" /\ rel' = "fire" => ~Ended]_mcvars
            /\ [][s.ph = "open" /\ s'.ph = "none" /\ ~Ended => rel' = "fire"]_mcvars

\* C09: down stays down, and is told only because of a report or the end of control.
C09Down == DownOnlyIfReported /\ DownIfReported
C09 == /\ [][watch.on /\ watch'.on /\ watch.down => watch'.down]_mcvars
       /\ [][~watch.down /\ watch'.down => mgr = "dead" \/ Ended]_mcvars
C09Data == [][rd.k = "pend" /\ rd'.k = "eof" => din = <<>>]_mcvars

-----------------------------------------------------------------------------
(* Liveness, under fairness of the client's own steps.                        *)

C06L == /\ fin ~> mgr = "dead" \/ handle = "dropped"
        /\ mgr = "dead" ~> s.ph \notin {"await", "cmd", "wait", "end"}
        /\ (mgr = "dead" /\ s.ph = "open") ~> (watch.down \/ s.ph # "open")
C07L == (handle = "dropped" /\ rq = <<>> /\ inb = <<>> /\ buf = <<>>) ~> (mgr = "dead" \/ rq # <<>> \/ inb # <<>>)
Queued(i) == IF i \in DOMAIN cmds THEN cmds[i].st = "queued" ELSE FALSE
C01L == \A i \in 1..(MaxCalls + 2 * MaxSessions) :
          Queued(i) ~> ~Queued(i)
C08L == (s.ph = "wait" /\ conn.ver > s.seen) ~> s.ph # "wait"
C09L == (watch.down /\ rd.k = "pend") ~> rd.k # "pend"
C09W == (watch.down /\ wr.k = "pend") ~> wr.k # "pend"
C11L == rel = "fire" ~> (rel = "call" \/ rel = "none")
=============================================================================
