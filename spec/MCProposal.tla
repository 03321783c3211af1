----------------------------- MODULE MCProposal -----------------------------
(* Lines are received one byte at a time; what they say is decided at the    *)
(* carriage return and not before, and it is what was written.               *)
EXTENDS Proposal, FiniteSets
CONSTANTS Senders, Boxes, Ids, Sizes, MaxAnswers

Bs(S) == {B(x) : x \in S}
Messages ==
  {[k |-> "fbb", tag |-> g, t |-> t, f |-> <<s, m, r, i>>, n |-> n] :
     g \in {"FA", "FB"}, t \in {"P", "B", "T"}, s \in Bs(Senders), m \in Bs(Boxes), r \in Bs(Senders), i \in Bs(Ids), n \in Bs(Sizes)}
  \cup {[k |-> "b2", id |-> i, u |-> u, c |-> c, ext |-> e] : i \in Bs(Ids), u \in Bs(Sizes), c \in Bs(Sizes),
          e \in {<<>>} \cup {<<s, m, r>> : s \in Bs(Senders), m \in Bs(Boxes), r \in Bs(Senders)}}
Answers == {B(x) : x \in {"+", "Y", "H", "=", "L", "-", "N", "R", "E"}} \cup {B("!") \o n : n \in Bs(Sizes)} \cup {B("A") \o n : n \in Bs(Sizes)}
AnswerSeqs == UNION {[1..n -> Answers] : n \in 1..MaxAnswers}

VARIABLES msg, line, got
vars == <<msg, line, got>>
Render(m) == IF m.k = "fbb" THEN RenderFbb(m.tag, m.t, m.f, m.n)
             ELSE IF m.k = "b2" THEN RenderB2(m.id, m.u, m.c, m.ext)
             ELSE B("FS ") \o Concat(m.a) \o CR1
Init == /\ msg \in Messages \cup {[k |-> "sel", a |-> a] : a \in AnswerSeqs}
        /\ line = Render(msg) /\ got = 0
Next == got < Len(line) /\ got' = got + 1 /\ UNCHANGED <<msg, line>>
Spec == Init /\ [][Next]_vars

B4 == SubSeq(line, 1, got)
Outcome == IF msg.k = "fbb" THEN Fbb(B4) ELSE IF msg.k = "b2" THEN B2P(B4) ELSE Selection(B4, Len(msg.a))
Whole == got = Len(line)
AnswerOf(a) == LET c == a[1] IN
  IF c \in AcceptsAt THEN Choice("+", Canon(Tail(a)))
  ELSE Choice(IF c \in Accepts THEN "+" ELSE IF c \in Defers THEN "=" ELSE "-", <<48>>)
Value == CASE msg.k = "fbb" -> [type |-> TypeOf(B(msg.t)), fields |-> msg.f, size |-> Canon(msg.n)]
           [] msg.k = "b2" -> [id |-> msg.id, usize |-> Canon(msg.u), csize |-> Canon(msg.c), ext |-> msg.ext]
           [] msg.k = "sel" -> [j \in 1..Len(msg.a) |-> AnswerOf(msg.a[j])]
\* An answer is complete before its carriage return once its last element is.
Exact == (Whole => Outcome.k = "parsed" /\ Outcome.v = Value /\ Outcome.rest = (IF msg.k = "sel" THEN 1 ELSE 0))
Partial == ~Whole => Outcome.k = "incomplete" \/ (msg.k = "sel" /\ Outcome.k = "parsed" /\ Outcome.v = Value)
=============================================================================
