--------------------------------- MODULE B2 ---------------------------------
(* B2F message blocks: header, data blocks, checksum.                        *)
(*   SOH n title NUL offset NUL   (STX n data)*   EOT checksum               *)
(* The data are: CRC-16 (little endian) of what follows, the uncompressed    *)
(* size (little endian, 32 bits), the compressed message. The checksum makes *)
(* the sum of all data bytes and itself zero modulo 256.                     *)
EXTENDS Bytes, Crc

SOH == 1
STX == 2
EOT == 4
MaxHeader == 88
U32Max == B("4294967295")

TitleChar(b) == b >= 32 /\ b <= 126
\* The offset's digits.
HeaderOk(h) ==
  LET n == Span(h, TitleChar)
      t == From(h, n + 1)
  IN /\ Len(h) <= MaxHeader
     /\ t # <<>> /\ t[1] = 0
     /\ LET d == SubSeq(t, 2, Len(t) - 1) IN Len(t) >= 3 /\ t[Len(t)] = 0 /\ Fits(d, U32Max)
TitleOf(h) == SubSeq(h, 1, Span(h, TitleChar))
OffsetOf(h) == LET n == Span(h, TitleChar) IN Canon(SubSeq(h, n + 2, Len(h) - 1))

\* Where the next part starts: the framing alone.
BlockLen(b, i) == IF b[i+1] = 0 THEN 256 ELSE b[i+1]
RECURSIVE Blocks(_, _, _)
\* [k, data, next]: data blocks from position i up to the checksum.
Blocks(b, i, acc) ==
  IF i > Len(b) THEN [k |-> "more"]
  ELSE IF b[i] = STX THEN
    IF i + 1 > Len(b) \/ i + 1 + BlockLen(b, i) > Len(b) THEN [k |-> "more"]
    ELSE Blocks(b, i + 2 + BlockLen(b, i), Append(acc, SubSeq(b, i + 2, i + 1 + BlockLen(b, i))))
  ELSE IF b[i] = EOT THEN
    IF i + 1 > Len(b) THEN [k |-> "more"] ELSE [k |-> "end", blocks |-> acc, sum |-> b[i+1], next |-> i + 2]
  ELSE [k |-> "bad"]

Add256(x, y) == (x + y) % 256
Sum(data) == FoldLeft(Add256, 0, data)

\* The fields of the data: its first block holds the CRC and the size.
Crc16Of(d) == d[1] + 256 * d[2]
SizeOf(d) == SubSeq(d, 3, 6)
Intact(d, sum) == /\ (Sum(d) + sum) % 256 = 0
                  /\ Crc16Of(d) = CRC(From(d, 3))

Rejected == [k |-> "rejected"]
Accept(h, d, rest) == [k |-> "parsed", rest |-> rest,
                       v |-> [title |-> TitleOf(h), offset |-> OffsetOf(h), crc |-> Crc16Of(d), size |-> SizeOf(d), data |-> From(d, 7)]]
\* An empty transfer, without any data block, carries nothing but zeros.
Zeros == <<0, 0, 0, 0, 0, 0>>

\* What a receiver makes of the bytes it has so far.
Receive(b) ==
  IF b = <<>> THEN [k |-> "incomplete"]
  ELSE IF b[1] # SOH THEN Rejected
  ELSE IF Len(b) < 2 THEN [k |-> "incomplete"]
  ELSE IF b[2] > MaxHeader THEN Rejected
  ELSE IF Len(b) < 2 + b[2] THEN [k |-> "incomplete"]
  ELSE LET h == SubSeq(b, 3, 2 + b[2]) IN
       IF ~HeaderOk(h) THEN Rejected
       ELSE LET x == Blocks(b, 3 + b[2], <<>>) IN
            CASE x.k = "more" -> [k |-> "incomplete"]
              [] x.k = "bad" -> Rejected
              [] x.k = "end" ->
                 IF x.blocks = <<>> THEN IF x.sum = 0 THEN Accept(h, Zeros, Len(b) - x.next + 1) ELSE Rejected
                 ELSE IF Len(x.blocks[1]) < 6 THEN Rejected
                 ELSE LET d == Concat(x.blocks) IN IF Intact(d, x.sum) THEN Accept(h, d, Len(b) - x.next + 1) ELSE Rejected

-----------------------------------------------------------------------------
(* The sender's side.                                                        *)
Header(title, offset) == LET h == title \o <<0>> \o offset \o <<0>> IN <<SOH, Len(h)>> \o h
OneBlock(d) == <<STX, Len(d) % 256>> \o d
Protected(size, z) == LET c == CRC(size \o z) IN <<c % 256, c \div 256>> \o size \o z
\* cuts: the lengths of the data blocks.
RECURSIVE Cut(_, _)
Cut(d, cuts) == IF cuts = <<>> THEN <<>> ELSE OneBlock(SubSeq(d, 1, cuts[1])) \o Cut(From(d, cuts[1] + 1), Tail(cuts))
Frame(title, offset, size, z, cuts) ==
  LET d == Protected(size, z)
  IN Header(title, offset) \o Cut(d, cuts) \o <<EOT, (256 - Sum(d)) % 256>>
=============================================================================
