---------------------------- MODULE JudgeProposal ----------------------------
EXTENDS Proposal, Judge
Spec1(b) == CASE C.q.f = "proposal" -> Fbb(b) [] C.q.f = "b2proposal" -> B2P(b) [] C.q.f = "selection" -> Selection(b, C.q.p)
\* A prefix of an acceptable line comes with that line.
Line1 == IF "line" \in DOMAIN C.q THEN C.q.line ELSE <<>>
PrefixOfGood(b) == Len(b) < Len(Line1) /\ Starts(Line1, b) /\ Spec1(Line1).k = "parsed"
Missing(b) == Len(Line1) - Len(b)
Holds ==
  LET b == C.q.b  r == C.r  s == Spec1(b)
  IN IF s.k = "parsed" THEN r.k = "parsed" /\ r.v = s.v /\ r.rest = s.rest
     ELSE IF s.k = "rejected" THEN r.k = "rejected"
     ELSE IF PrefixOfGood(b) THEN r.k = "incomplete" /\ r.n <= Missing(b)
     ELSE r.k \in {"incomplete", "rejected"}
Kind == <<C.q.f, IF PrefixOfGood(C.q.b) /\ Spec1(C.q.b).k = "incomplete" THEN "prefix" ELSE Spec1(C.q.b).k>>
Ok == Say(Holds, Kind)
=============================================================================
