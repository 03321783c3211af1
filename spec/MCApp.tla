-------------------------------- MODULE MCApp --------------------------------
(* Exhaustive exploration of App.tla with a small alphabet.                   *)
EXTENDS App, TLC
CONSTANTS MaxLines, MaxData, MaxIn, Lines, Pieces,
          Ready0   \* begin at: "start", "called" (set up), "open" (connected)

ACR == "CR"
AMeaning(b) ==
  CASE b = <<"OK">> -> [k |-> "ok"]
    [] b = <<"NO">> -> [k |-> "wrong"]
    [] b = <<"TX">> -> [k |-> "ptt", on |-> TRUE]
    [] b = <<"RX">> -> [k |-> "ptt", on |-> FALSE]
    [] b = <<"DISC">> -> [k |-> "conn", v |-> "disc"]
    [] b = <<"CONN">> -> [k |-> "conn", v |-> "conn"]
    [] OTHER -> [k |-> "bad"]
APtt(b) == IF b = <<"TX">> THEN "on" ELSE IF b = <<"RX">> THEN "off" ELSE "none"
ASetUp(w) == <<[k |-> "mycall"], [k |-> "compression"], [k |-> "bw"]>>
ACall(w) == [k |-> "connect"]
AIdent(w) == <<"me", "cr">>
ADCR == "cr"
AIsPrompt(t) == t # <<>> /\ t[Len(t)] = ">"
APieces == {<<"a", "cr">>, <<">">>, <<"cr">>}
AMorePieces == {<<"a", "cr">>, <<">", "cr", "b", "cr">>, <<">">>, <<"cr">>, <<"b">>}

VARIABLES nl, rsent
vars2 == <<appvars, nl, rsent>>

MCInit == /\ CASE Ready0 = "start" -> given \in [serial : BOOLEAN, who : {0}] /\ AppInit
               [] OTHER -> given = [serial |-> TRUE, who |-> 0] /\ Opened(Ready0 = "open")
          /\ nl = 0 /\ rsent = <<>>
Tnc ==
  \/ /\ nl < MaxLines /\ ~fin /\ nl' = nl + 1 /\ UNCHANGED rsent
     /\ \E x \in Lines : TncSays(<<x, "CR">>)
  \/ ~fin /\ TncGoes /\ UNCHANGED <<nl, rsent>>
  \/ /\ s.ph \in {"cmd", "wait", "open"} /\ Len(rsent) < MaxData /\ ~dfin
     /\ \E p \in Pieces : RemoteSays(p) /\ rsent' = rsent \o p
     /\ UNCHANGED nl
  \/ s.ph = "open" /\ ~dfin /\ DataGoes /\ UNCHANGED <<nl, rsent>>
  \/ sin + (IF pc \in {"ident", "follow", "last"} THEN 1 ELSE 0) < MaxIn /\ UserTypes(1) /\ UNCHANGED <<nl, rsent>>
  \/ ~seof /\ UserEnds /\ UNCHANGED <<nl, rsent>>
  \/ rig = "up" /\ RadioStalls /\ UNCHANGED <<nl, rsent>>
  \/ rig = "jam" /\ RadioGoesOn /\ UNCHANGED <<nl, rsent>>
  \/ rig \in {"up", "jam"} /\ RadioGoes /\ UNCHANGED <<nl, rsent>>
Own == AppStep /\ UNCHANGED <<nl, rsent>>
MCNext == Own \/ (Running /\ Tnc)
MCSpec == MCInit /\ [][MCNext]_vars2
MCFair == MCSpec /\ WF_vars2(VaraStep /\ UNCHANGED <<nl, rsent>>)
                 /\ WF_vars2(Program /\ ~(pc = "last" /\ ~Ready) /\ (pc = "go" => PGo) /\ UNCHANGED <<nl, rsent>>)
                 /\ WF_vars2((\E k \in 1..Len(pttlog) : RigTell(k)) /\ UNCHANGED <<nl, rsent>>)

\* What is printed is what was sent, line by line, from the first on.
RECURSIVE Text0(_)
Text0(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o <<ADCR>> \o Text0(Tail(q))
Printed == LET t == Text0(printed) IN t = SubSeq(rsent, 1, Len(t)) /\ (s.ph = "open" => t \o lb \o (IF rd.k = "data" THEN rd.b ELSE <<>>) \o din = SubSeq(rsent, 1, Len(t) + Len(lb) + Len(din) + (IF rd.k = "data" THEN Len(rd.b) ELSE 0)))
\* Being at rest is having nothing left that must be done.
Rests == Running => (AppQuiet <=> ~ENABLED Must)
Said == told = Len(Ident) => dout = Ident
C15L == /\ (fin /\ pc \in {"setup", "reply", "connecting", "prompt"}) ~> (pc \in {"exit", "go"})
        /\ (watch.down /\ pc = "follow") ~> pc \in {"last", "exit"}
        /\ (pc = "last" /\ Ready) ~> pc = "exit"
        /\ (pc = "go" /\ Ready) ~> pc # "go"
C14E == [](rig = "up" => <>(rseen = Len(pttlog) \/ rig # "up" \/ ~Running))
=============================================================================
