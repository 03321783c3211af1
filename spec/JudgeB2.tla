------------------------------ MODULE JudgeB2 ------------------------------
EXTENDS B2, Judge
Line1 == IF "line" \in DOMAIN C.q THEN C.q.line ELSE <<>>
Fields(v) == [title |-> v.title, offset |-> v.offset, crc |-> v.crc, size |-> v.size, data |-> v.data]
\* The framing is complete, so that only the checks can decide.
Framed(b) == /\ Len(b) >= 2 /\ b[1] = SOH /\ Len(b) >= 2 + b[2] /\ HeaderOk(SubSeq(b, 3, 2 + b[2]))
             /\ LET x == Blocks(b, 3 + b[2], <<>>) IN x.k = "end" /\ x.blocks # <<>> /\ Len(x.blocks[1]) >= 6
Good(b) == Receive(b).k = "parsed"
PrefixOfGood(b) == Len(b) < Len(Line1) /\ Starts(Line1, b) /\ Good(Line1)
S == Receive(C.q.b)
Prefix == S.k = "incomplete" /\ PrefixOfGood(C.q.b)
Text == "message" \in DOMAIN C.q => C.r.v.text = <<C.q.message>>
Holds ==
  LET b == C.q.b  r == C.r  s == S
  IN IF s.k = "parsed" THEN r.k = "parsed" /\ Fields(r.v) = s.v /\ r.rest = s.rest /\ Text
     ELSE IF s.k = "rejected" /\ Framed(b) THEN r.k = "rejected"
     ELSE IF Prefix THEN r.k = "incomplete" /\ r.n <= Len(Line1) - Len(b)
     ELSE r.k \in {"incomplete", "rejected"}
Kind == IF Prefix THEN "prefix" ELSE IF S.k = "rejected" /\ Framed(C.q.b) THEN "fails its checks" ELSE S.k
Ok == Say(IF C.q.f = "crc" THEN C.r.crc = CRC(C.q.b) ELSE Holds, IF C.q.f = "crc" THEN "crc" ELSE Kind)
=============================================================================
