-------------------------------- MODULE MCB2 --------------------------------
(* A sender frames every small message in every possible way; the channel    *)
(* may change one or two bytes of the data; the receiver gets it byte by     *)
(* byte.                                                                     *)
EXTENDS B2, FiniteSets
CONSTANTS ByteSet, MaxData, Titles, Offsets, Noise

Datas == UNION {[1..n -> ByteSet] : n \in 0..MaxData}
RECURSIVE Cuttings(_)
Cuttings(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Cuttings(n - k)} : k \in 1..n}

VARIABLES sent, wire, got, hit
vars == <<sent, wire, got, hit>>

Body(w) == {i \in 1..Len(w) : i > 2 + w[2]}
Init ==
  \E t \in Titles, o \in Offsets, s \in {<<0, 0, 0, 0>>, <<1, 2, 0, 0>>}, z \in Datas :
    \E c \in {x \in Cuttings(6 + Len(z)) : x[1] >= 6} :
      /\ sent = [title |-> B(t), offset |-> B(o), size |-> s, data |-> z]
      /\ wire = Frame(B(t), B(o), s, z, c)
      /\ got = 0 /\ hit = 0
Corrupt == /\ got = 0 /\ hit < Noise /\ hit' = hit + 1
           /\ \E i \in Body(wire), x \in {1, 2, 16, 255} : wire' = [wire EXCEPT ![i] = (wire[i] + x) % 256]
           /\ UNCHANGED <<sent, got>>
Get == got < Len(wire) + 1 /\ got' = got + 1 /\ UNCHANGED <<sent, wire, hit>>
Next == Corrupt \/ Get
Spec == Init /\ [][Next]_vars

\* One byte of whatever comes next.
Stream == wire \o <<SOH>>
R == Receive(SubSeq(Stream, 1, got))
V(r) == [title |-> r.v.title, offset |-> r.v.offset, size |-> r.v.size, data |-> r.v.data]
WireDone == got >= Len(wire)
Delivered == hit = 0 /\ WireDone => R.k = "parsed" /\ V(R) = sent /\ R.rest = got - Len(wire)
Patient == hit = 0 /\ ~WireDone => R.k = "incomplete"
\* A changed body of the same length is never taken for another message.
NothingWrong == hit > 0 /\ R.k = "parsed" /\ R.rest = 0 /\ got = Len(wire) /\ Len(V(R).data) = Len(sent.data) => V(R) = sent
=============================================================================
