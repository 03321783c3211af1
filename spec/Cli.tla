-------------------------------- MODULE Cli --------------------------------
(* Starting the program: which settings it takes, and what it touches with    *)
(* them - the TNC, the radio - before and after the TNC accepted the set-up.  *)
EXTENDS Station, Wire, FiniteSets, TLC

-----------------------------------------------------------------------------
(* What one setting's text says.                                              *)

Drop1(b, c) == IF b # <<>> /\ b[1] = c THEN Tail(b) ELSE b
MaxPort == B("65535")
\* A port is a number from 1 to 65535; a plus sign may go before it.
IsPort(b) == LET d == Drop1(b, 43) IN Fits(d, MaxPort) /\ Canon(d) # B("0")
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE 10 * Value(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
PortOf(b) == Value(Canon(Drop1(b, 43)))

RECURSIVE Parts(_, _)
Parts(b, c) ==
  IF \E i \in 1..Len(b) : b[i] = c
  THEN LET i == CHOOSE i \in 1..Len(b) : b[i] = c /\ \A j \in 1..(i-1) : b[j] # c
       IN <<SubSeq(b, 1, i - 1)>> \o Parts(From(b, i + 1), c)
  ELSE <<b>>

\* Four numbers up to 255, without leading zeros; or one of the ways to write
\* the local host in IPv6.
B255 == B("255")
IsV4(b) == LET q == Parts(b, 46) IN Len(q) = 4 /\ \A i \in 1..4 : Fits(q[i], B255) /\ Canon(q[i]) = q[i]
V6Here == {B("::1"), B("0:0:0:0:0:0:0:1"), B("0::1"), B("::0:1"), B("0000:0000:0000:0000:0000:0000:0000:0001")}
HostOf(b) == IF b \in V6Here THEN B("::1") ELSE b
IsHost(b) == IsV4(b) \/ b \in V6Here

Speeds == {B("4800"), B("9600"), B("19200"), B("38400")}

\* What is logged: parts with commas between them, each a level, a part of the
\* program, or a part and its level. Forms in brackets, and some others, are
\* not judged here.
Lower(b) == [i \in 1..Len(b) |-> IF IsUpper(b[i]) THEN b[i] + 32 ELSE b[i]]
LevelNames == {B("off"), B("error"), B("warn"), B("info"), B("debug"), B("trace")}
IsLevel(b) == Lower(b) \in LevelNames \/ (Len(b) = 1 /\ b[1] \in 48..53)
PartChar(c) == IsAlnum(c) \/ c \in {45, 58, 95}
IsPart(b) == b # <<>> /\ IsAlpha(b[1]) /\ All(b, PartChar)
Eq == 61
ClearPart(b) ==
  LET q == Parts(b, Eq) IN
  \/ IsLevel(b)
  \/ Len(q) = 1 /\ IsPart(b)
  \/ Len(q) = 2 /\ IsPart(q[1]) /\ IsLevel(q[2])
Bracket(c) == c \in {91, 93, 123, 125}
BadChar(c) == c \in {32, 42, 47}
BadPart(b) ==
  LET q == Parts(b, Eq) IN
  /\ ~\E i \in 1..Len(b) : Bracket(b[i])
  /\ \/ Len(q) > 2
     \/ Len(q) = 2 /\ (q[1] = <<>> \/ (q[2] # <<>> /\ All(q[2], PartChar) /\ All(q[2], IsAlpha) /\ ~IsLevel(q[2])))
     \/ \E i \in 1..Len(b) : BadChar(b[i])
\* Whether a program may start with it: one answer, or either.
LogAnswers(b) ==
  LET q == Parts(b, 44) IN
  IF \A i \in 1..Len(q) : ClearPart(q[i]) THEN {TRUE}
  ELSE IF \E i \in 1..Len(q) : BadPart(q[i]) THEN {FALSE}
  ELSE BOOLEAN

-----------------------------------------------------------------------------
(* A command line: for each setting the values given, in order; what the      *)
(* environment and a settings file say of the log.                            *)

Once(q, P(_)) == Len(q) = 1 /\ P(q[1])
AtMostOnce(q, P(_)) == Len(q) = 0 \/ Once(q, P)
LogOf(a) == IF a.log # <<>> THEN a.log[1] ELSE IF a.env # <<>> THEN a.env[1] ELSE IF a.file # <<>> THEN a.file[1] ELSE B("info")

Control(a) == IF a.control = <<>> THEN 8300 ELSE PortOf(a.control[1])
Host(a) == IF a.host = <<>> THEN B("127.0.0.1") ELSE HostOf(a.host[1])
Fitting(a) ==
  /\ Once(a.target, IsStation) /\ Once(a.my, IsStation)
  /\ AtMostOnce(a.host, IsHost) /\ AtMostOnce(a.control, IsPort) /\ AtMostOnce(a.data, IsPort)
  /\ Len(a.rig) = 1
  /\ Once(a.baud, LAMBDA b : b \in Speeds)
  /\ Len(a.log) <= 1
  /\ a.data = <<>> => Control(a) < 65535
  /\ a.other = <<>>
Answers(a) == IF Fitting(a) THEN LogAnswers(LogOf(a)) ELSE {FALSE}
Data(a) == IF a.data = <<>> THEN Control(a) + 1 ELSE PortOf(a.data[1])
Quiet(a) == Lower(LogOf(a)) = B("off")

-----------------------------------------------------------------------------
VARIABLES
  a,      \* the command line
  phase,  \* asked; refused; setup; called; over
  conns,  \* connections made: <<host, port>>
  lines,  \* what the TNC was sent
  oks,    \* how often the TNC said OK
  radio   \* how the radio's port is set: as found, or as the program sets it
cvars == <<a, phase, conns, lines, oks, radio>>

Found == [speed |-> 300, own |-> FALSE, stop |-> 2]
Speed(x) == Value(x.baud[1])
Ours(x) == [speed |-> Speed(x), own |-> TRUE, stop |-> 1]

CliInit == phase = "asked" /\ conns = <<>> /\ lines = <<>> /\ oks = 0 /\ radio = Found

My == Canonical(a.my[1])
Target == Canonical(a.target[1])
Says == <<Text([k |-> "mycall", ids |-> <<My>>]), Text([k |-> "compression", m |-> "TEXT"]), Text([k |-> "bw", m |-> "2300"]),
          Text([k |-> "connect", ids |-> <<My, Target>>, path |-> <<>>])>>

Refuse == phase = "asked" /\ FALSE \in Answers(a) /\ phase' = "refused" /\ UNCHANGED <<a, conns, lines, oks, radio>>
Start ==
  /\ phase = "asked" /\ TRUE \in Answers(a)
  /\ phase' = "setup"
  /\ conns' = <<<<Host(a), Control(a)>>, <<Host(a), Data(a)>>>>
  /\ lines' = <<Says[1]>>
  /\ UNCHANGED <<a, oks, radio>>
TncAccepts ==
  /\ phase = "setup"
  /\ oks' = oks + 1
  /\ lines' = Append(lines, Says[oks + 2])
  /\ IF oks = 2 THEN phase' = "called" /\ radio' = Ours(a) ELSE UNCHANGED <<phase, radio>>
  /\ UNCHANGED <<a, conns>>
TncRefuses == phase \in {"setup", "called"} /\ phase' = "over" /\ UNCHANGED <<a, conns, lines, oks, radio>>

Status == CASE phase \in {"setup", "called"} -> "run" [] phase \in {"refused", "over"} -> "fail" [] OTHER -> "none"

-----------------------------------------------------------------------------
(* C24.                                                                       *)

Untouched == conns = <<>> /\ lines = <<>> /\ radio = Found
C24Refused == phase = "refused" => Untouched
\* Whatever is touched is touched with settings that are fit, exactly as given.
C24Asked ==
  ~Untouched =>
    /\ Fitting(a) /\ TRUE \in LogAnswers(LogOf(a))
    /\ Len(conns) = 2 /\ conns[1][1] = conns[2][1]
    /\ \A i \in 1..2 : conns[i][2] \in 1..65535
    /\ a.control # <<>> => B(ToString(conns[1][2])) = Canon(Drop1(a.control[1], 43))
    /\ a.data # <<>> => B(ToString(conns[2][2])) = Canon(Drop1(a.data[1], 43))
    /\ a.data = <<>> => conns[2][2] = conns[1][2] + 1
\* Every line is one line whatever the settings are.
C24OneLine == \A i \in 1..Len(lines) : \A j \in 1..Len(lines[i]) : lines[i][j] >= 32 /\ lines[i][j] < 127 /\ ~IsLower(lines[i][j])
\* The radio is opened once the TNC accepted everything before the call.
C24Radio == radio # Found => oks = 3 /\ radio = Ours(a)
=============================================================================
