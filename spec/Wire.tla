-------------------------------- MODULE Wire --------------------------------
(* The text of the VARA host protocol: what each line from the TNC says, and  *)
(* how each command to it is written.                                         *)
EXTENDS Bytes

Bad == [k |-> "bad"]
U64Max == B("18446744073709551615")

tOn == B("ON")
tOff == B("OFF")
OnOff(b, kind) ==
  IF b = tOn THEN [k |-> kind, on |-> TRUE]
  ELSE IF b = tOff THEN [k |-> kind, on |-> FALSE] ELSE Bad

IdChar(b) == IsUpper(b) \/ IsDigit(b)

\* A station as the TNC names it: three to seven capitals and digits, and
\* perhaps an SSID of one or two after a hyphen.
StationText(b) ==
  LET n == Span(b, IdChar)
      t == From(b, n + 1)
  IN /\ n >= 3 /\ n <= 7
     /\ t # <<>> => Len(t) \in {2, 3} /\ t[1] = 45 /\ All(Tail(t), IdChar)

ConnectedText(b) ==
  \E i \in 1..Len(b) : b[i] = SpB /\ StationText(SubSeq(b, 1, i - 1)) /\ StationText(From(b, i + 1))

tOk == B("OK")
tWrong == B("WRONG")
tAlive == B("IAMALIVE")
tDisc == B("DISCONNECTED")
tPend == B("PENDING")
tCancel == B("CANCELPENDING")
tBuffer == B("BUFFER ")
tBusy == B("BUSY ")
tPtt == B("PTT ")
tReg == B("REGISTERED ")
tConn == B("CONNECTED ")

\* The whole of the line must be one of these.
LineMeaning(b) ==
  IF b = tOk THEN [k |-> "ok"]
  ELSE IF b = tWrong THEN [k |-> "wrong"]
  ELSE IF b = tAlive THEN [k |-> "hb"]
  ELSE IF b = tDisc THEN [k |-> "conn", v |-> "disc"]
  ELSE IF b = tPend THEN [k |-> "conn", v |-> "pend"]
  ELSE IF b = tCancel THEN [k |-> "conn", v |-> "cancel"]
  ELSE IF Starts(b, tBuffer) THEN
    LET d == From(b, Len(tBuffer) + 1) IN IF Fits(d, U64Max) THEN [k |-> "buf", n |-> Canon(d)] ELSE Bad
  ELSE IF Starts(b, tBusy) THEN OnOff(From(b, Len(tBusy) + 1), "busy")
  ELSE IF Starts(b, tPtt) THEN OnOff(From(b, Len(tPtt) + 1), "ptt")
  ELSE IF Starts(b, tReg) THEN
    LET i == From(b, Len(tReg) + 1) IN IF StationText(i) THEN [k |-> "reg", id |-> i] ELSE Bad
  ELSE IF Starts(b, tConn) THEN
    IF ConnectedText(From(b, Len(tConn) + 1)) THEN [k |-> "conn", v |-> "conn"] ELSE Bad
  ELSE Bad

sp == <<SpB>>

\* The path of a connect command: none, one or two digipeaters.
PathText(p) == IF p = <<>> THEN <<>> ELSE B(" via ") \o Join(p, sp)

Text(c) ==
  CASE c.k = "listen"      -> B("LISTEN ") \o B(c.m)
    [] c.k = "connect"     -> B("CONNECT ") \o Join(c.ids, sp) \o PathText(c.path)
    [] c.k = "disconnect"  -> B("DISCONNECT")
    [] c.k = "abort"       -> B("ABORT")
    [] c.k = "mycall"      -> B("MYCALL ") \o Join(c.ids, sp)
    [] c.k = "compression" -> B("COMPRESSION ") \o B(c.m)
    [] c.k = "bw"          -> B("BW") \o B(c.m)

\* C02: one line, printable, nothing but its own words.
OneLine(b) == b # <<>> /\ \A i \in 1..Len(b) : b[i] >= 32 /\ b[i] <= 126
=============================================================================
