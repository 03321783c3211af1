------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of codes; text is written as TLA+ strings and    *)
(* converted with B.                                                          *)
EXTENDS Naturals, Sequences

\* The printable characters, from code 32 on.
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == 31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c
\* A parameter named like a variable of an extending module keeps TLC from
\* evaluating constants once only.
B(txt) == [i \in 1..Len(txt) |-> Code(SubSeq(txt, i, i))]
Char(b) == SubSeq(Printable, b - 31, b - 31)

CrB == 13
NulB == 0
SpB == 32

IsDigit(b) == b >= 48 /\ b <= 57
IsUpper(b) == b >= 65 /\ b <= 90
IsLower(b) == b >= 97 /\ b <= 122
IsAlpha(b) == IsUpper(b) \/ IsLower(b)
IsAlnum(b) == IsAlpha(b) \/ IsDigit(b)
Upper(b) == IF IsLower(b) THEN b - 32 ELSE b
Graphic(b) == b >= 33 /\ b <= 126

Starts(b, p) == Len(b) >= Len(p) /\ \A i \in 1..Len(p) : b[i] = p[i]
From(b, i) == SubSeq(b, i, Len(b))
All(b, P(_)) == \A i \in 1..Len(b) : P(b[i])
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b

\* Length of the longest prefix all of whose bytes satisfy P.
RECURSIVE SpanAt(_, _, _)
SpanAt(b, P(_), i) == IF i <= Len(b) /\ P(b[i]) THEN SpanAt(b, P, i + 1) ELSE i - 1
Span(b, P(_)) == SpanAt(b, P, 1)

\* Numbers as digit sequences: TLC's integers have 32 bits.
RECURSIVE Canon(_)
Canon(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Canon(Tail(d)) ELSE d
\* Both canonical.
RECURSIVE DigitsLeq(_, _)
DigitsLeq(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE DigitsLeq(Tail(a), Tail(b))
Fits(d, limit) == Len(d) >= 1 /\ All(d, IsDigit) /\ DigitsLeq(Canon(d), limit)

RECURSIVE Join(_, _)
Join(parts, sep) ==
  IF parts = <<>> THEN <<>>
  ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o sep \o Join(Tail(parts), sep)
RECURSIVE Concat(_)
Concat(parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o Concat(Tail(parts))
=============================================================================
