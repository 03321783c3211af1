-------------------------------- MODULE App --------------------------------
(* The plusendi program: the user of one TNC handle (Vara.tla), which it sets *)
(* up and calls once, and of one radio, which it keys as the TNC asks; with   *)
(* its standard input and output, and its exit status.                        *)
EXTENDS Vara

CONSTANTS SetUpOf(_),   \* the commands that come first, in order, for a call
          CallOf(_),    \* the connect request
          IdentOf(_),   \* what the program says of itself
          DCR,          \* the end of a line on the data connection
          IsPrompt(_),  \* whether a line is the remote's prompt
          PttOf(_)      \* what a line from the TNC asks of the radio: on, off, none

VARIABLES
  pc,      \* setup, reply, open, connect, connecting, prompt, go, ident, follow, last, exit
  step,    \* the command of SetUp that is next or under way
  code,    \* exit status: none, ok, fail
  lb,      \* data read that is not yet a line
  printed, \* lines printed
  told,    \* bytes of Ident that are out
  sin,     \* lines of standard input not yet read
  seof,    \* end of standard input
  given,   \* who calls whom, and whether the serial port can be opened
  rig,     \* off, up, jam (takes nothing for now), down
  pttlog,  \* what the TNC asked of the radio, in order
  rseen,   \* how much of pttlog the radio has been told, or has been passed over
  rout     \* what the radio was told

SetUp == SetUpOf(given.who)
CallCmd == CallOf(given.who)
Ident == IdentOf(given.who)

pvars == <<pc, step, code, lb, printed, told, sin, seof, given>>
gvars == <<rig, pttlog, rseen, rout>>
appvars == <<vars, pvars, gvars>>

AppInit ==
  /\ Init
  /\ pc = "setup" /\ step = 1 /\ code = "none"
  /\ lb = <<>> /\ printed = <<>> /\ told = 0 /\ sin = 0 /\ seof = FALSE
  /\ rig = "off" /\ pttlog = <<>> /\ rseen = 0 /\ rout = <<>>

\* Later beginnings, for exploring sessions: the call is out, or answered.
Opened(on) ==
  /\ mgr = "run" /\ buf = <<>> /\ inb = <<>> /\ fin = FALSE /\ sq = <<>> /\ ch = <<>>
  /\ cmds = [i \in 1..(Len(SetUp) + 1) |->
               IF i <= Len(SetUp) THEN [c |-> SetUp[i], own |-> "api", st |-> "ok"]
               ELSE [c |-> CallCmd, own |-> "con", st |-> IF on THEN "ok" ELSE "sent"]]
  /\ log = [i \in 1..(Len(SetUp) + 1) |-> i]
  /\ rq = (IF on THEN <<>> ELSE <<Len(SetUp) + 1>>)
  /\ reps = [i \in 1..(IF on THEN Len(SetUp) + 1 ELSE Len(SetUp)) |-> "ok"]
  /\ handle = "live"
  /\ st = [busy |-> FALSE, ptt |-> FALSE, buf |-> Zero, hb |-> FALSE, regs |-> {}]
  /\ conn = (IF on THEN [v |-> "conn", ver |-> 1, lost |-> 0] ELSE [v |-> "disc", ver |-> 0, lost |-> 0])
  /\ rel = "none" /\ relc = 0
  /\ s = [ph |-> IF on THEN "open" ELSE "cmd", cid |-> Len(SetUp) + 1, seen |-> IF on THEN 1 ELSE 0, lost |-> 0,
          con |-> IF on THEN "ok" ELSE "none", end |-> "none", cmd |-> CallCmd]
  /\ watch = [on |-> on, seen |-> IF on THEN 1 ELSE 0, down |-> FALSE]
  /\ rd = Idle /\ wr = Idle /\ dnet = <<>> /\ din = <<>> /\ dfin = FALSE /\ dout = <<>> /\ dshut = FALSE
  /\ pc = (IF on THEN "prompt" ELSE "connecting") /\ step = Len(SetUp) + 1 /\ code = "none"
  /\ lb = <<>> /\ printed = <<>> /\ told = 0 /\ sin = 0 /\ seof = FALSE /\ given.serial
  /\ rig = "up" /\ pttlog = <<>> /\ rseen = 0 /\ rout = <<>>

Running == pc # "exit"
Exit(c) == pc' = "exit" /\ code' = c /\ UNCHANGED <<step, lb, printed, told, sin, seof, given>>
Goes(p) == pc' = p /\ UNCHANGED <<step, code, lb, printed, told, sin, seof, given>>
BadWriteResults == {"aborted", "err"}

-----------------------------------------------------------------------------
(* Set-up and call.                                                           *)

PAsk ==
  /\ pc = "setup"
  /\ Call(SetUp[step])
  /\ Goes("reply") /\ UNCHANGED gvars
PReply ==
  /\ pc = "reply" /\ Settled(Len(cmds))
  /\ IF Succeeded(Len(cmds))
     THEN /\ pc' = (IF step < Len(SetUp) THEN "setup" ELSE "open") /\ step' = step + 1
          /\ UNCHANGED <<code, lb, printed, told, sin, seof, given>>
     ELSE Exit("fail")
  /\ UNCHANGED <<vars, gvars>>
POpen ==
  /\ pc = "open"
  /\ IF given.serial THEN rig' = "up" /\ Goes("connect") ELSE Exit("fail") /\ UNCHANGED rig
  /\ UNCHANGED <<vars, pttlog, rseen, rout>>
PConnect ==
  /\ pc = "connect"
  /\ Connect(CallCmd)
  /\ Goes("connecting") /\ UNCHANGED gvars
PConnected ==
  /\ pc = "connecting"
  /\ \/ s.ph = "open" /\ Goes("prompt")
     \/ s.con = "err" /\ Exit("fail")
  /\ UNCHANGED <<vars, gvars>>

-----------------------------------------------------------------------------
(* The remote's lines.                                                        *)

LineIn(q) == \E i \in 1..Len(q) : q[i] = DCR
LineEnd(q) == CHOOSE i \in 1..Len(q) : q[i] = DCR /\ \A j \in 1..(i-1) : q[j] # DCR
Reading == pc \in {"prompt", "go", "follow"}

\* While the user is asked, reading on is up to the program.
PRead ==
  /\ Reading /\ ~LineIn(lb) /\ rd.k = "none"
  /\ Read(4096)
  /\ UNCHANGED <<pvars, gvars>>
PTake ==
  /\ Reading /\ ~LineIn(lb) /\ rd.k \in {"data", "eof"}
  /\ IF rd.k = "data"
     THEN lb' = lb \o rd.b /\ rd' = Idle /\ UNCHANGED <<pc, step, code, printed, told, sin, seof, given>>
     ELSE CASE pc = "prompt" -> Exit("fail") /\ UNCHANGED rd
            [] pc = "follow" -> Goes("last") /\ UNCHANGED rd
            \* The end was seen early: it is remembered, or acted upon.
            [] pc = "go" -> \E c \in {"ok", "fail"} : Exit(c) /\ UNCHANGED rd
  /\ UNCHANGED <<mvars, qvars, handle, svars, wr, dnet, din, dfin, dout, dshut, gvars>>
PLine ==
  /\ Reading /\ LineIn(lb)
  /\ LET i == LineEnd(lb)
         t == SubSeq(lb, 1, i - 1) IN
       /\ printed' = Append(printed, t)
       /\ lb' = SubSeq(lb, i + 1, Len(lb))
       /\ pc' = IF pc = "prompt" /\ IsPrompt(t) THEN "go" ELSE pc
  /\ UNCHANGED <<vars, step, code, told, sin, seof, given, gvars>>

\* The user's go-ahead: a line, or the end of the input.
Ready == sin > 0 \/ seof
Less == IF sin > 0 THEN sin - 1 ELSE 0
PGo ==
  /\ pc = "go" /\ Ready
  /\ sin' = Less /\ pc' = "ident"
  /\ UNCHANGED <<vars, step, code, lb, printed, told, seof, given, gvars>>
PTell ==
  /\ pc = "ident" /\ wr.k = "none"
  /\ Write("write", SubSeq(Ident, told + 1, Len(Ident)))
  /\ UNCHANGED <<pvars, gvars>>
PTold ==
  /\ pc = "ident" /\ wr.k \notin {"none", "pend"}
  /\ wr' = Idle
  /\ IF wr.k \in BadWriteResults THEN Exit("fail")
     ELSE /\ told' = told + wr.n
          /\ pc' = IF told + wr.n = Len(Ident) THEN "follow" ELSE "ident"
          /\ UNCHANGED <<step, code, lb, printed, sin, seof, given>>
  /\ UNCHANGED <<mvars, qvars, handle, svars, rd, dnet, din, dfin, dout, dshut, gvars>>

\* After the end of the link the program waits for the user at most.
PLast ==
  /\ pc = "last"
  /\ Exit("ok")
  /\ UNCHANGED <<vars, gvars>>

-----------------------------------------------------------------------------
(* The radio. Requests may be passed over for later ones.                     *)

RigTell(k) ==
  /\ Running /\ rig = "up" /\ k \in (rseen + 1)..Len(pttlog)
  /\ rout' = Append(rout, pttlog[k]) /\ rseen' = k
  /\ UNCHANGED <<vars, pvars, rig, pttlog>>

\* Everything the handle does, the radio's requests noted as they pass.
Hear ==
  /\ pttlog' = IF mgr \in {"run", "drain"} /\ HasLine /\ buf' # buf /\ Len(buf') < Len(buf)
               THEN LET p == PttOf(SubSeq(buf, 1, FirstCR - 1)) IN IF p = "none" THEN pttlog ELSE Append(pttlog, p)
               ELSE pttlog
  /\ UNCHANGED <<rig, rseen, rout>>
VaraStep == Running /\ Internal /\ Hear /\ UNCHANGED pvars

Program == PAsk \/ PReply \/ POpen \/ PConnect \/ PConnected \/ PRead \/ PTake \/ PLine \/ PGo \/ PTell \/ PTold \/ PLast
\* What has to happen: all of it but the program's liberties.
Must == \/ VaraStep
        \/ Program /\ ~(pc = "last" /\ ~Ready) /\ (pc = "go" => PGo)
        \/ \E k \in 1..Len(pttlog) : RigTell(k)
AppStep == VaraStep \/ Program \/ \E k \in 1..Len(pttlog) : RigTell(k)

\* Nothing is left that has to be done.
MustRead == pc \in {"prompt", "follow"} /\ (LineIn(lb) \/ rd.k # "pend")
ProgramQuiet ==
  /\ pc \notin {"setup", "open", "connect", "ident"}
  /\ ~(pc = "reply" /\ Settled(Len(cmds)))
  /\ ~(pc = "connecting" /\ (s.ph = "open" \/ s.con = "err"))
  /\ ~MustRead
  /\ ~(pc = "go" /\ Ready)
  /\ ~(pc = "last" /\ Ready)
RigQuiet == rig = "up" => rseen = Len(pttlog)
AppQuiet == Running => Quiet /\ ProgramQuiet /\ RigQuiet

-----------------------------------------------------------------------------
(* The world.                                                                 *)

World(A) == A /\ UNCHANGED <<pvars, gvars>>
TncSays(b) == World(TncSend(b))
TncGoes == World(TncClose)
RemoteSays(b) == World(DataSend(b))
DataGoes == World(DataClose)
UserTypes(n) == sin' = sin + n /\ UNCHANGED <<vars, gvars, pc, step, code, lb, printed, told, seof, given>>
UserEnds == seof' = TRUE /\ UNCHANGED <<vars, gvars, pc, step, code, lb, printed, told, sin, given>>
RadioIs(r) == rig' = (IF rig \in {"up", "jam"} THEN r ELSE rig) /\ UNCHANGED <<vars, pvars, pttlog, rseen, rout>>
RadioGoes == RadioIs("down")
RadioStalls == RadioIs("jam")
RadioGoesOn == RadioIs("up")

-----------------------------------------------------------------------------
(* Properties.                                                                *)

Expected == SetUp \o <<CallCmd>>
\* C15: in that order, each only after the one before was accepted.
AppSetUp ==
  /\ Len(log) <= Len(Expected)
  /\ \A n \in 1..Len(log) : cmds[log[n]].c = Expected[n] /\ (n > 1 => cmds[log[n - 1]].st = "ok")
\* C15: a refusal or a loss ends the program with a failure.
AppFails == pc \notin {"setup", "reply", "exit"} => \A n \in 1..Len(SetUp) : Succeeded(n)
AppEnds == /\ pc = "exit" <=> code # "none"
           /\ code = "ok" => told = Len(Ident) \/ (printed # <<>> /\ \E i \in 1..Len(printed) : IsPrompt(printed[i]))
\* C15: nothing is said before the prompt.
AppPrompt == dout # <<>> => /\ \E i \in 1..Len(printed) : IsPrompt(printed[i])
                            /\ dout = SubSeq(Ident, 1, Len(dout))
\* C14: in order, nothing that was not asked for.
AppRig ==
  /\ Len(rout) <= rseen /\ rseen <= Len(pttlog)
  /\ rout # <<>> => rout[Len(rout)] = pttlog[rseen]
  /\ rig = "off" => rout = <<>>
=============================================================================
