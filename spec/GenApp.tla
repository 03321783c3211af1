------------------------------- MODULE GenApp -------------------------------
(* Scripts for the program: the actions of the TNC, the remote, the user and  *)
(* the radio in behaviours of App.tla. See GenVara.tla.                       *)
EXTENDS App, TLC, Json

CONSTANTS Ops, Lines, Pieces, DataPieces, MaxOps, MaxData, MaxIn, MaxLag, AllLengths,
          From,    \* begin at: start, called (set up and call requested), open
          Serials

GCR == "CR"
GDCR == "cr"
GMeaning(b) ==
  CASE b = <<"OK">> -> [k |-> "ok"]
    [] b = <<"NO">> -> [k |-> "wrong"]
    [] b = <<"TX">> -> [k |-> "ptt", on |-> TRUE]
    [] b = <<"RX">> -> [k |-> "ptt", on |-> FALSE]
    [] b = <<"DISC">> -> [k |-> "conn", v |-> "disc"]
    [] b = <<"CONN">> -> [k |-> "conn", v |-> "conn"]
    [] b = <<"PEND">> -> [k |-> "conn", v |-> "pend"]
    [] b = <<"REP">> -> [k |-> "busy", on |-> TRUE]
    [] OTHER -> [k |-> "bad"]
GPtt(b) == IF b = <<"TX">> THEN "on" ELSE IF b = <<"RX">> THEN "off" ELSE "none"
GSetUp(w) == <<[k |-> "mycall"], [k |-> "compression"], [k |-> "bw"]>>
GCall(w) == [k |-> "connect"]
GIdent(w) == <<"me">>
GIsPrompt(t) == t # <<>> /\ t[Len(t)] = ">"

NoPieces == {}
SetUpPieces == {<<"OK">>, <<"CR">>, <<"TX", "CR", "OK", "CR">>, <<"OK", "CR", "RX", "CR">>, <<"OK", "CR", "OK", "CR">>, <<"OK", "CR", "BAD", "CR">>}
CallPieces == {<<"OK", "CR", "CONN", "CR">>, <<"CONN", "CR", "OK", "CR">>, <<"OK", "CR", "DISC", "CR">>, <<"TX", "CR", "RX", "CR">>, <<"OK", "CR", "TX", "CR">>}
PttPieces == {<<"TX", "CR", "RX", "CR">>, <<"RX", "CR", "TX", "CR">>, <<"TX", "CR", "RX", "CR", "TX", "CR">>, <<"RX">>, <<"CR", "TX", "CR">>, <<"CR">>}
TextPieces == {<<"a", "cr">>, <<"a">>, <<">", "cr">>, <<"cr">>, <<"x", "cr">>, <<">", "cr", "a", "cr">>, <<"a", "cr", "a">>}
FewPieces == {<<"a", "cr">>, <<"a", ">", "cr">>, <<"a", "cr", ">", "cr", "a">>}

VARIABLES script, lag, nd, ni
gvars2 == <<appvars, script, lag, nd, ni>>
LastOf(q) == IF q = <<>> THEN "" ELSE q[Len(q)]
View == <<IF script = <<>> THEN <<>> ELSE script[Len(script)], pc, step, code, lb, printed # <<>>, told, sin, seof, given, rig, LastOf(pttlog), LastOf(rout),
          mgr, buf, inb, fin, sq, ch, rq, IF cmds = <<>> THEN "" ELSE cmds[Len(cmds)].st, conn.v, conn.ver > s.seen, Ended, s.ph, s.con, watch.on, watch.down,
          rd, wr.k, dnet, din, dfin, lag, nd, ni>>

Tx(p) == [op |-> "tx", p |-> p, s |-> TRUE]
Called == <<Tx(<<"OK", "CR">>), Tx(<<"OK", "CR">>), Tx(<<"OK", "CR">>)>>
GInit ==
  /\ lag = 0 /\ nd = 0 /\ ni = 0
  /\ CASE From = "start"  -> given \in [serial : Serials, who : {0}] /\ AppInit /\ script = <<>>
       [] From = "called" -> given = [serial |-> TRUE, who |-> 0] /\ Opened(FALSE) /\ script = Called
       [] From = "open"   -> given = [serial |-> TRUE, who |-> 0] /\ Opened(TRUE) /\ script = Append(Called, Tx(<<"OK", "CR", "CONN", "CR">>))
Before == CASE From = "start" -> 0 [] From = "called" -> 3 [] From = "open" -> 4

Op(o) == script' = Append(script, o @@ [s |-> lag' = 0])
Env ==
  \/ /\ "tx" \in Ops /\ ~fin /\ mgr # "dead"
     /\ \E p \in {<<x, "CR">> : x \in Lines} \cup Pieces : TncSays(p) /\ Op([op |-> "tx", p |-> p])
     /\ UNCHANGED <<nd, ni>>
  \/ "close" \in Ops /\ ~fin /\ TncGoes /\ Op([op |-> "close"]) /\ UNCHANGED <<nd, ni>>
  \/ /\ "dtx" \in Ops /\ ~dfin /\ nd < MaxData /\ nd' = nd + 1
     /\ \E p \in DataPieces : RemoteSays(p) /\ Op([op |-> "dtx", p |-> p])
     /\ UNCHANGED ni
  \/ "dclose" \in Ops /\ ~dfin /\ DataGoes /\ Op([op |-> "dclose"]) /\ UNCHANGED <<nd, ni>>
  \/ "stdin" \in Ops /\ ~seof /\ ni < MaxIn /\ ni' = ni + 1 /\ UserTypes(1) /\ Op([op |-> "stdin"]) /\ UNCHANGED nd
  \/ "stdineof" \in Ops /\ ~seof /\ UserEnds /\ Op([op |-> "stdineof"]) /\ UNCHANGED <<nd, ni>>
  \/ "radio" \in Ops /\ lag = 0 /\ Op([op |-> "radio"]) /\ UNCHANGED <<appvars, nd, ni>>
  \/ "jam" \in Ops /\ rig = "up" /\ lag = 0 /\ RadioStalls /\ Op([op |-> "jam"]) /\ UNCHANGED <<nd, ni>>
  \/ "jam" \in Ops /\ rig = "jam" /\ RadioGoesOn /\ Op([op |-> "free"]) /\ UNCHANGED <<nd, ni>>
  \/ "radiogone" \in Ops /\ rig \in {"up", "jam"} /\ RadioGoes /\ Op([op |-> "radiogone"]) /\ UNCHANGED <<nd, ni>>

Rest == /\ Must /\ (rout' # rout => rseen' = Len(pttlog))
GNext ==
  \/ lag = 0 /\ Rest /\ UNCHANGED <<script, lag, nd, ni>>
  \/ /\ (lag = 0 => AppQuiet) /\ Running /\ Len(script) < MaxOps + Before
     /\ lag' \in (IF lag < MaxLag THEN {0, lag + 1} ELSE {0})
     /\ Env
GSpec == GInit /\ [][GNext]_gvars2
PrintScript == (Len(script) > Before /\ lag = 0 /\ AppQuiet /\ (AllLengths \/ ~Running \/ Len(script) = MaxOps + Before))
               => PrintT("SCRIPT " \o ToJson([serial |-> given.serial, ops |-> script]))
=============================================================================
