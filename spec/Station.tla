------------------------------ MODULE Station ------------------------------
(* Station ids: a call sign and perhaps an SSID.                              *)
EXTENDS Bytes

Alpha1(b) == Len(b) >= 1 /\ All(b, IsAlpha)
\* An optional digit, letters, digits, a letter, then letters or digits.
IsCall(b) ==
  \E i \in 1..Len(b) : \E j \in (i+1)..(Len(b)-1) :
    /\ LET p == SubSeq(b, 1, i) IN Alpha1(p) \/ (IsDigit(p[1]) /\ Alpha1(Tail(p)))
    /\ All(SubSeq(b, i + 1, j), IsDigit)
    /\ IsAlpha(b[j+1])
    /\ All(From(b, j + 2), IsAlnum)

HyphenAt(b, h) == b[h] = 45 /\ IsCall(SubSeq(b, 1, h - 1)) /\ Len(b) - h \in {1, 2} /\ All(From(b, h + 1), IsAlnum)
IsStation(b) == IsCall(b) \/ \E h \in 1..Len(b) : HyphenAt(b, h)

Canonical(b) == [i \in 1..Len(b) |-> Upper(b[i])]
\* The call sign without its SSID.
CallPart(b) == LET n == Span(b, IsAlnum) IN SubSeq(b, 1, n)

-----------------------------------------------------------------------------
(* The same as an automaton reading one character at a time: the set of      *)
(* states it may be in.                                                      *)
Class(c) == IF IsDigit(c) THEN "d" ELSE IF IsAlpha(c) THEN "a" ELSE IF c = 45 THEN "h" ELSE "x"
Delta(q, k) ==
  CASE q = "start"  -> IF k = "d" THEN {"lead"} ELSE IF k = "a" THEN {"let"} ELSE {}
    [] q = "lead"   -> IF k = "a" THEN {"let"} ELSE {}
    [] q = "let"    -> IF k = "a" THEN {"let"} ELSE IF k = "d" THEN {"dig"} ELSE {}
    [] q = "dig"    -> IF k = "d" THEN {"dig"} ELSE IF k = "a" THEN {"call"} ELSE {}
    [] q = "call"   -> IF k \in {"a", "d"} THEN {"call"} ELSE IF k = "h" THEN {"hyph"} ELSE {}
    [] q = "hyph"   -> IF k \in {"a", "d"} THEN {"ssid1"} ELSE {}
    [] q = "ssid1"  -> IF k \in {"a", "d"} THEN {"ssid2"} ELSE {}
    [] q = "ssid2"  -> {}
Accepting == {"call", "ssid1", "ssid2"}
=============================================================================
