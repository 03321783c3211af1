------------------------------- MODULE MCLzss -------------------------------
(* The sliding window: any choice of literals and matches a sender may make, *)
(* read by a receiver that keeps only the last N characters in a ring primed *)
(* with spaces. Matches may start before the text and overlap themselves;    *)
(* the last may go beyond the declared size, where the receiver stops.       *)
EXTENDS Naturals, Sequences
CONSTANTS N, Shortest, Longest, Chars, Space, MaxText, Past
VARIABLES text, pos, ring, r, out
vars == <<text, pos, ring, r, out>>

Init == /\ text \in UNION {[1..k -> Chars] : k \in 0..MaxText} /\ pos = 0
        /\ ring = [x \in 0..(N - 1) |-> Space] /\ r \in {0, N - 1} /\ out = <<>>

\* The sender's view: the character d places before place x, spaces before the text.
Back(x, d) == IF x > d THEN text[x - d] ELSE Space
Matches(len, d) == \A x \in 1..len : pos + x <= Len(text) => text[pos + x] = Back(pos + x, d)

\* The receiver's: one character at a time, out of the ring.
RECURSIVE Copy(_, _, _, _, _)
Copy(ri, at, o, from, len) ==
  IF len = 0 \/ Len(o) = Len(text) THEN [ring |-> ri, r |-> at, out |-> o]
  ELSE LET c == ri[from] IN Copy([ri EXCEPT ![at] = c], (at + 1) % N, Append(o, c), (from + 1) % N, len - 1)

Literal == /\ pos < Len(text) /\ pos' = pos + 1
           /\ ring' = [ring EXCEPT ![r] = text[pos + 1]] /\ r' = (r + 1) % N /\ out' = Append(out, text[pos + 1])
           /\ UNCHANGED text
Match(len, d) ==
  /\ pos < Len(text) /\ Matches(len, d)
  /\ pos + len <= Len(text) + Past
  /\ LET y == Copy(ring, r, out, (r + N - d) % N, len) IN ring' = y.ring /\ r' = y.r /\ out' = y.out
  /\ pos' = IF pos + len > Len(text) THEN Len(text) ELSE pos + len
  /\ UNCHANGED text
Next == Literal \/ \E len \in Shortest..Longest, d \in 1..N : Match(len, d)
Spec == Init /\ [][Next]_vars

Same == out = SubSeq(text, 1, pos)
Window == \A d \in 1..N : ring[(r + N - d) % N] = Back(pos + 1, d)
\* A literal is always possible, so that every text can be sent.
Sendable == pos < Len(text) => ENABLED Literal
=============================================================================
