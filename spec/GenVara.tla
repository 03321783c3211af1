------------------------------- MODULE GenVara -------------------------------
(* Scripts for the harness, generated from the model: the sequence of user    *)
(* and TNC actions of a behaviour of Vara.tla in which the client comes to    *)
(* rest after every action but those marked s = FALSE. With the script left   *)
(* out of the state (VIEW) one script is printed for every transition of the  *)
(* state graph; with -simulate, long random behaviours are printed.           *)
EXTENDS Vara, TLC, Json

CONSTANTS Ops,         \* what the user and the TNC do
          Lines,       \* line symbols the TNC uses
          Pieces,      \* further sequences of symbols the TNC sends in one go
          MaxOps, MaxCalls, MaxSessions, MaxData, MaxLag,
          Open,        \* begin with a session open
          AllLengths   \* print scripts of any length (transition coverage) or of MaxOps only

GCR == "CR"
GMeaning(b) ==
  CASE b = <<"OK">> -> [k |-> "ok"]
    [] b = <<"NO">> -> [k |-> "wrong"]
    [] b = <<"DISC">> -> [k |-> "conn", v |-> "disc"]
    [] b = <<"CONN">> -> [k |-> "conn", v |-> "conn"]
    [] b = <<"PEND">> -> [k |-> "conn", v |-> "pend"]
    [] b = <<"REP">> -> [k |-> "busy", on |-> ~st.busy]   \* any report without further consequence
    [] OTHER -> [k |-> "bad"]

\* Sets of pieces to choose from: none, cut lines, several lines at once.
NoPieces == {}
CutPieces == {<<"OK">>, <<"CR">>, <<"CR", "OK">>, <<"OK", "CR", "REP">>}
JoinedPieces == {<<"OK", "CR", "OK", "CR">>, <<"OK", "CR", "BAD", "CR">>, <<"REP", "CR", "OK", "CR", "REP", "CR">>}
WindPieces == {<<"OK", "CR", "OK", "CR">>, <<"OK", "CR", "NO", "CR", "OK", "CR">>, <<"REP", "CR", "OK">>, <<"CR", "OK", "CR">>}
ConnectPieces == {<<"OK", "CR", "CONN", "CR">>, <<"CONN", "CR", "OK", "CR">>, <<"OK", "CR", "DISC", "CR">>, <<"OK", "CR", "CONN">>, <<"CR">>}
EndPieces == {<<"DISC", "CR", "PEND", "CR">>, <<"DISC", "CR", "CONN", "CR">>, <<"OK", "CR", "DISC", "CR">>, <<"PEND", "CR", "DISC", "CR">>, <<"OK", "CR", "CONN", "CR">>}
RepPieces == {<<"REP", "CR", "REP", "CR">>, <<"REP", "CR", "REP", "CR", "REP", "CR">>}
SetUp == {<<"OK", "CR", "CONN", "CR">>}

VARIABLES script, lag, ses, nd, dead
gvars == <<vars, script, lag, ses, nd, dead>>
\* Everything that decides what can happen next, and the action taken last:
\* one script for every transition.
View == <<IF script = <<>> THEN <<>> ELSE script[Len(script)],
          mgr, buf, inb, fin, sq, ch, rq, cmds, handle, conn.v, conn.ver > s.seen, Ended, rel, s.ph, s.con, s.end,
          watch, rd, wr, dnet, din, dfin, dshut, lag, ses, nd, dead>>

\* From the start, or with the first session already open.
Opened == <<[op |-> "connect", s |-> TRUE], [op |-> "tx", p |-> <<"OK", "CR", "CONN", "CR">>, s |-> TRUE]>>
InitOpen ==
  /\ mgr = "run" /\ buf = <<>> /\ inb = <<>> /\ fin = FALSE
  /\ sq = <<>> /\ ch = <<>> /\ rq = <<>>
  /\ cmds = <<[c |-> [k |-> "connect"], own |-> "con", st |-> "ok"]>> /\ log = <<1>> /\ reps = <<"ok">>
  /\ handle = "live"
  /\ st = [busy |-> FALSE, ptt |-> FALSE, buf |-> Zero, hb |-> FALSE, regs |-> {}]
  /\ conn = [v |-> "conn", ver |-> 1, lost |-> 0]
  /\ rel = "none" /\ relc = 0
  /\ s = [ph |-> "open", cid |-> 1, seen |-> 1, lost |-> 0, con |-> "ok", end |-> "none", cmd |-> [k |-> "connect"]]
  /\ watch = [on |-> TRUE, seen |-> 1, down |-> FALSE]
  /\ rd = Idle /\ wr = Idle /\ dnet = <<>> /\ din = <<>> /\ dfin = FALSE /\ dout = <<>> /\ dshut = FALSE
GInit ==
  /\ lag = 0 /\ nd = 0 /\ dead = 0
  /\ IF Open THEN InitOpen /\ script = Opened /\ ses = 1 ELSE Init /\ script = <<>> /\ ses = 0

Settling == lag = 0

\* s: whether the client comes to rest after this action.
Op(o) == script' = Append(script, o @@ [s |-> lag' = 0])
O1(n) == [op |-> n]
Nth(i) == Cardinality({j \in ApiCalls : j <= i})

Env ==
  \/ /\ "call" \in Ops /\ Cardinality(ApiCalls) < MaxCalls
     /\ Call([k |-> "any"]) /\ Op(O1("call")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "cancel" \in Ops
     /\ \E i \in Pending : Cancel(i) /\ Op([op |-> "cancel", id |-> Nth(i)])
     /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "connect" \in Ops /\ ses < MaxSessions
     /\ Connect([k |-> "connect"]) /\ Op(O1("connect")) /\ ses' = ses + 1 /\ UNCHANGED <<nd, dead>>
  \/ /\ "cconnect" \in Ops
     /\ ConnectCancel /\ Op(O1("cconnect")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "tx" \in Ops /\ mgr # "dead" /\ dead = 0
     /\ \E p \in {<<x, "CR">> : x \in Lines} \cup Pieces :
          TncSend(p) /\ Op([op |-> "tx", p |-> p])
     /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "close" \in Ops /\ ~fin
     /\ TncClose /\ Op(O1("close")) /\ dead' = 1 /\ UNCHANGED <<ses, nd>>
  \/ /\ "dtx" \in Ops /\ nd < MaxData
     /\ DataSend(<<nd + 1>>) /\ Op(O1("dtx")) /\ nd' = nd + 1 /\ UNCHANGED <<ses, dead>>
  \/ /\ "dclose" \in Ops /\ ~dfin
     /\ DataClose /\ Op(O1("dclose")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "read" \in Ops /\ Read(1) /\ Op(O1("read")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "cread" \in Ops /\ ReadCancel /\ Op(O1("cread")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "write" \in Ops /\ Write("write", <<1>>) /\ Op(O1("write")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "flush" \in Ops /\ Write("flush", <<>>) /\ Op(O1("flush")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "shutdown" \in Ops /\ ~dshut /\ Write("shutdown", <<>>) /\ Op(O1("shutdown")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "fill" \in Ops /\ Write("fill", <<>>) /\ Op(O1("fill")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "drop" \in Ops /\ StreamDrop /\ Op(O1("drop")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "end" \in Ops /\ End([k |-> "disconnect"]) /\ Op(O1("end")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "cend" \in Ops /\ EndCancel /\ Op(O1("cend")) /\ UNCHANGED <<ses, nd, dead>>
  \/ /\ "handle" \in Ops /\ HandleDrop /\ Op(O1("drophandle")) /\ UNCHANGED <<ses, nd, dead>>

\* The harness hands over a result as soon as the client is at rest.
Hand ==
  /\ rd.k \in {"data", "eof"} \/ wr.k \notin {"none", "pend"}
  /\ rd' = IF rd.k = "pend" THEN rd ELSE Idle
  /\ wr' = IF wr.k = "pend" THEN wr ELSE Idle
  /\ UNCHANGED <<mvars, qvars, handle, svars, dnet, din, dfin, dout, dshut>>

Rest == \* one step towards rest, the first that applies
  \/ Internal
  \/ Quiet /\ Hand
AtRest == Quiet /\ rd.k \in {"none", "pend"} /\ wr.k \in {"none", "pend"}

\* An action marked not to settle is followed at once by the next one.
GNext ==
  \/ /\ Settling /\ Rest /\ UNCHANGED <<script, lag, ses, nd, dead>>
  \/ /\ (Settling => AtRest) /\ Len(script) < MaxOps + (IF Open THEN 2 ELSE 0)
     /\ lag' \in (IF lag < MaxLag THEN {0, lag + 1} ELSE {0})
     /\ Env

GSpec == GInit /\ [][GNext]_gvars

\* Scripts end with the client at rest.
PrintScript == (script # <<>> /\ lag = 0 /\ AtRest /\ (AllLengths \/ Len(script) = MaxOps + (IF Open THEN 2 ELSE 0))) => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
