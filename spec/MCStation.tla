----------------------------- MODULE MCStation -----------------------------
(* Reads every string over a small alphabet, one character at a time, and    *)
(* compares the automaton with the definition; checks that the canonical     *)
(* form is a fixed point and that the TNC's grammar can carry it (Wire).     *)
EXTENDS Station, Wire
CONSTANTS Alphabet, MaxLen
VARIABLES s, qs

Init == s = <<>> /\ qs = {"start"}
Next == /\ Len(s) < MaxLen
        /\ \E c \in Alphabet : s' = Append(s, c) /\ qs' = UNION {Delta(q, Class(c)) : q \in qs}
Spec == Init /\ [][Next]_<<s, qs>>

Same == IsStation(s) <=> (qs \cap Accepting # {})
CanonicalIsFixed == IsStation(s) => /\ Canonical(Canonical(s)) = Canonical(s)
                                    /\ IsStation(Canonical(s))
\* Safe on the wire: no space, no control character, no lower case.
Safe == IsStation(s) => \A i \in 1..Len(s) : Graphic(Canonical(s)[i]) /\ ~IsLower(Canonical(s)[i])
\* What is accepted here and short enough is a station name in the TNC's reports.
Reported == IsStation(s) /\ Len(CallPart(s)) <= 7 => StationText(Canonical(s))
=============================================================================
