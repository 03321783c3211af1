------------------------------- MODULE MCCli -------------------------------
(* Command lines that differ from a plain one in up to Vary settings, over    *)
(* values of every kind; each is also a script for the real program.          *)
EXTENDS Cli, Json
CONSTANTS Vary, Show

One(T) == {<<B(t)>> : t \in T}
None == {<<>>}
Two(x, y) == {<<B(x), B(y)>>}
Raw(S) == {<<b>> : b \in S}
Ids == One({"W1AW", "k2xyz", "Kc1Gsl-15", "9a1aa", "ve7abcd-t", "N0CALL-Z", "G4A", "2e0abc",          \* stations
            "", "W1", "1AW", "W1AW-", "W1AW-123", "W1AW 1", "W1-AW", "-W1AW", "W1AW-1-2", "WAW", "W1AW.", "11AW"})
       \cup Raw({B("W1AW") \o <<13>>, B("W1AW") \o <<13>> \o B("ABORT"), <<10>> \o B("W1AW"), B("W1AW") \o <<10>>, B("W1AW K2XYZ"), <<255>>, B("W") \o <<217, 160>> \o B("AW"),
                 <<226, 132, 170>> \o B("1AW")})
       \cup None \cup Two("W1AW", "W1AW") \cup Two("W1AW", "K2XYZ")
Ports == One({"1", "1023", "5000", "8300", "8301", "8302", "65534", "65535", "+5000", "05000", "0008300",
              "", "0", "00", "+0", "65536", "70000", "73836", "4294967296", "4294972296", "18446744073709559916", "-1", "5000x", "5000 ", " 5000", "0x10", "5e3", "5000.0", "+", "++5", "http"})
         \cup None \cup Two("5000", "5000") \cup Two("5000", "6000")
Dom(f) ==
  CASE f = "target" -> Ids
    [] f = "my" -> Ids
    [] f = "host" -> One({"127.77.1.9", "127.77.255.254", "::1", "0:0:0:0:0:0:0:1", "", "localhost", "127.0.0.01", "127.0.0.256", "127.1", "127.0.0", "127.0.0.1.1",
                          "127.0.0.1:8300", "127.0.0.1 ", "[::1]", ":::1", "::g", "0x7f.0.0.1", "2130706433", "tnc"}) \cup None \cup Two("127.77.1.9", "127.77.1.9")
    [] f = "control" -> Ports
    [] f = "data" -> Ports
    [] f = "rig" -> One({"radio"}) \cup None \cup Two("radio", "radio")
    [] f = "baud" -> One({"4800", "9600", "19200", "38400", "", "0", "1200", "2400", "57600", "115200", "-4800", "+4800", "04800", "4800 ", "4800.0", "480", "48000", "4294972096", "fast"})
                     \cup None \cup Two("4800", "4800") \cup Two("4800", "9600")
    [] f = "log" -> One({"off", "OFF", "info", "Warn", "plusendi=trace", "plusendi", "trace,plusendi=off", "plusendi::modem=debug,error", "3", "5",
                         "=", "a=b=c", "plusendi=loud", "=info", "a b", "plusendi=trace=", "info,x=loud", "*", "x/y", ",", "6", "[", "plusendi[", "{", "plusendi="})
                    \cup None \cup Two("off", "off")
    [] f \in {"env", "file"} -> One({"off", "info", "plusendi=trace", "=", "plusendi=loud", "a b"}) \cup None
    [] f = "other" -> None \cup One({"--bogus", "-x", "--modem-port=5000", "K2XYZ"})
Fields == {"target", "my", "host", "control", "data", "rig", "baud", "log", "env", "file", "other"}
Base == [target |-> <<B("W1AW")>>, my |-> <<B("K2XYZ")>>, host |-> <<B("127.77.1.9")>>, control |-> <<>>, data |-> <<>>, rig |-> <<B("radio")>>,
         baud |-> <<B("38400")>>, log |-> <<B("off")>>, env |-> <<>>, file |-> <<>>, other |-> <<>>]
\* Without a log setting on the command line the others count.
NoLog == [Base EXCEPT !.log = <<>>]
Start1(x) == UNION {{[x EXCEPT ![f] = v] : v \in Dom(f)} : f \in Fields}
Init == /\ CliInit
        /\ \E x \in {Base, NoLog} :
             IF Vary = 1 THEN a \in Start1(x)
             ELSE \E f \in Fields : \E v \in Dom(f) : \E g \in Fields : \E w \in Dom(g) : a = [x EXCEPT ![f] = v, ![g] = w]
Next == Refuse \/ Start \/ TncAccepts \/ TncRefuses
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Refuse \/ Start)
Decides == phase = "asked" ~> phase # "asked"
PrintScript == Show /\ phase = "asked" => PrintT("SCRIPT " \o ToJson(a))
\* Not vacuous: a command line is fit exactly if the program may start with it.
Agree == phase \in {"setup", "called"} => TRUE \in Answers(a)
=============================================================================
