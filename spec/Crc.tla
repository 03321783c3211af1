--------------------------------- MODULE Crc ---------------------------------
(* CRC-16/XMODEM, bit by bit: polynomial x^16 + x^12 + x^5 + 1, no           *)
(* reflection, starting from zero.                                           *)
EXTENDS Naturals, Sequences, Bitwise, SequencesExt

Poly == 4129  \* 0x1021
Shift1(r) == LET d == (r * 2) % 65536 IN IF r >= 32768 THEN d ^^ Poly ELSE d
RECURSIVE ShiftN(_, _)
ShiftN(r, n) == IF n = 0 THEN r ELSE ShiftN(Shift1(r), n - 1)
CrcByte(r, b) == ShiftN(r ^^ (b * 256), 8)
\* The same, precomputed for speed.
CrcTable == [b \in 0..255 |-> ShiftN(b * 256, 8)]
CrcStep(r, b) == ((r * 256) % 65536) ^^ CrcTable[(r \div 256) ^^ b]
CRC(bytes) == FoldLeft(CrcStep, 0, bytes)
=============================================================================
