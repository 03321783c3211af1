------------------------------ MODULE Proposal ------------------------------
(* Mail forwarding lines: proposals and the answers to them.                 *)
EXTENDS Bytes

CR1 == <<CrB>>
Sp1 == <<SpB>>
\* A field: within its length, without the delimiters.
FieldChar(b) == b # SpB /\ b # CrB
Field(f, max) == Len(f) >= 1 /\ Len(f) <= max /\ All(f, FieldChar)
Digits(d) == Len(d) >= 1 /\ Len(d) <= 6 /\ All(d, IsDigit)
Types == [P |-> "Private", B |-> "Bulletin", T |-> "Traffic"]
TypeOf(b) == IF b = B("P") THEN "Private" ELSE IF b = B("B") THEN "Bulletin" ELSE IF b = B("T") THEN "Traffic" ELSE "none"

\* The words of a line without its carriage return, split at single spaces.
RECURSIVE Split(_)
Split(b) == LET n == Span(b, LAMBDA x : x # SpB)
            IN IF n = Len(b) THEN <<b>> ELSE <<SubSeq(b, 1, n)>> \o Split(From(b, n + 2))

\* Length of the first line with its carriage return; 0 if none.
LineLen(b) == LET n == Span(b, LAMBDA x : x # CrB) IN IF n = Len(b) THEN 0 ELSE n + 1

\* Well-formed UTF-8 is required of fields (RFC 3629).
Cont(b) == b >= 128 /\ b <= 191
RECURSIVE Utf8(_)
Utf8(f) ==
  IF f = <<>> THEN TRUE
  ELSE LET c == f[1]
           n == IF c < 128 THEN 1 ELSE IF c >= 194 /\ c <= 223 THEN 2 ELSE IF c >= 224 /\ c <= 239 THEN 3
                ELSE IF c >= 240 /\ c <= 244 THEN 4 ELSE 0
       IN /\ n # 0 /\ Len(f) >= n
          /\ \A i \in 2..n : Cont(f[i])
          /\ c = 224 => f[2] >= 160
          /\ c = 237 => f[2] <= 159
          /\ c = 240 => f[2] >= 144
          /\ c = 244 => f[2] <= 143
          /\ Utf8(From(f, n + 1))

Rejected == [k |-> "rejected"]
Parsed(v, rest) == [k |-> "parsed", v |-> v, rest |-> rest]
Need == [k |-> "incomplete"]

IsFbb(w) ==
  /\ Len(w) = 7 /\ w[1] \in {B("FA"), B("FB")} /\ TypeOf(w[2]) # "none"
  /\ Field(w[3], 6) /\ Field(w[4], 40) /\ Field(w[5], 6) /\ Field(w[6], 12) /\ Digits(w[7])
  /\ \A i \in 3..6 : Utf8(w[i])
FbbValue(w) == [type |-> TypeOf(w[2]), fields |-> SubSeq(w, 3, 6), size |-> Canon(w[7])]

IsB2(w) ==
  /\ Len(w) \in {5, 8} /\ w[1] = B("FC") /\ w[2] = B("EM")
  /\ Field(w[3], 12) /\ Utf8(w[3]) /\ Digits(w[4]) /\ Digits(w[5])
  /\ Len(w) = 8 => Field(w[6], 6) /\ Field(w[7], 40) /\ Field(w[8], 6) /\ \A i \in 6..8 : Utf8(w[i])
B2Value(w) == [id |-> w[3], usize |-> Canon(w[4]), csize |-> Canon(w[5]), ext |-> SubSeq(w, 6, Len(w))]

\* What a line-oriented parser makes of b: only the whole line decides.
Line(b, Is(_), Value(_)) ==
  LET n == LineLen(b)
      w == Split(SubSeq(b, 1, n - 1))
  IN IF n = 0 THEN Need ELSE IF Is(w) THEN Parsed(Value(w), Len(b) - n) ELSE Rejected
Fbb(b) == Line(b, IsFbb, FbbValue)
B2P(b) == Line(b, IsB2, B2Value)

\* Answers: FS, a space, one element for each proposal.
Accepts == {43, 89, 72}   \* + Y H
AcceptsAt == {33, 65}     \* ! A, with the offset to resume from
Defers == {61, 76}        \* = L
Rejects == {45, 78, 82, 69}  \* - N R E
Choice(c, o) == [c |-> c, o |-> o]
RECURSIVE Elements(_, _, _)
Elements(b, p, acc) ==
  IF p = 0 THEN Parsed(acc, Len(b))
  ELSE IF b = <<>> THEN Need
  ELSE LET c == b[1]
           d == LET n == Span(Tail(b), IsDigit) IN IF n > 6 THEN 6 ELSE n
           o == SubSeq(b, 2, d + 1)
       IN IF c \in Accepts THEN Elements(Tail(b), p - 1, Append(acc, Choice("+", <<48>>)))
          ELSE IF c \in Defers THEN Elements(Tail(b), p - 1, Append(acc, Choice("=", <<48>>)))
          ELSE IF c \in Rejects THEN Elements(Tail(b), p - 1, Append(acc, Choice("-", <<48>>)))
          ELSE IF c \in AcceptsAt THEN
            IF d = Len(b) - 1 /\ d < 6 THEN Need    \* more digits may follow
            ELSE IF d = 0 THEN Rejected
            ELSE Elements(From(b, d + 2), p - 1, Append(acc, Choice("+", Canon(o))))
          ELSE Rejected
tFS == B("FS ")
Selection(b, p) ==
  IF Starts(b, tFS) THEN Elements(From(b, 4), p, <<>>)
  ELSE IF Starts(tFS, b) THEN Need ELSE Rejected

\* How lines are written.
RenderFbb(tag, t, f, size) == Join(<<B(tag), B(t)>> \o f \o <<size>>, Sp1) \o CR1
RenderB2(id, u, c, ext) == Join(<<B("FC"), B("EM"), id, u, c>> \o ext, Sp1) \o CR1
=============================================================================
