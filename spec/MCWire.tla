------------------------------- MODULE MCWire -------------------------------
(* Every command over a small domain: one line each, and no two alike.       *)
EXTENDS Wire, Station, FiniteSets
CONSTANTS Ids, MaxList

IdB == {B(x) : x \in Ids}
Modes(k) == CASE k = "listen" -> {"OFF", "CQ", "ON"} [] k = "compression" -> {"OFF", "TEXT", "FILES"} [] k = "bw" -> {"500", "2300", "2750"}
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Commands ==
  {[k |-> k, m |-> "x"] : k \in {"disconnect", "abort"}}
  \cup UNION {{[k |-> k, m |-> m] : m \in Modes(k)} : k \in {"listen", "compression", "bw"}}
  \cup {[k |-> "mycall", ids |-> x] : x \in SeqsOf(IdB, 1, MaxList)}
  \cup {[k |-> "connect", ids |-> x, path |-> p] : x \in SeqsOf(IdB, 2, 2), p \in SeqsOf(IdB, 0, 2)}

VARIABLE c
Init == c \in Commands
Spec == Init /\ [][FALSE]_c

\* The words of a line.
RECURSIVE Words(_)
Words(b) == LET n == Span(b, LAMBDA x : x # SpB)
            IN IF n = Len(b) THEN <<b>> ELSE <<SubSeq(b, 1, n)>> \o Words(From(b, n + 2))
\* Reading a line back.
ReadBack(b) ==
  LET w == Words(b)
      m(k) == LET S == {x \in Modes(k) : B(x) = w[2]} IN CHOOSE x \in S : TRUE
  IN CASE w[1] = B("LISTEN") -> [k |-> "listen", m |-> m("listen")]
       [] w[1] = B("COMPRESSION") -> [k |-> "compression", m |-> m("compression")]
       [] w[1] = B("DISCONNECT") -> [k |-> "disconnect", m |-> "x"]
       [] w[1] = B("ABORT") -> [k |-> "abort", m |-> "x"]
       [] w[1] = B("MYCALL") -> [k |-> "mycall", ids |-> Tail(w)]
       [] w[1] = B("CONNECT") -> [k |-> "connect", ids |-> SubSeq(w, 2, 3), path |-> IF Len(w) > 3 THEN SubSeq(w, 5, Len(w)) ELSE <<>>]
       [] OTHER -> [k |-> "bw", m |-> CHOOSE x \in Modes("bw") : b = B("BW") \o B(x)]

IsOneLine == OneLine(Text(c))
\* Single spaces, none at the ends.
Spaces == \A w \in {Words(Text(c))[j] : j \in 1..Len(Words(Text(c)))} : w # <<>>
Unique == ReadBack(Text(c)) = c
=============================================================================
