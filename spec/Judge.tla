-------------------------------- MODULE Judge --------------------------------
(* Conformance of the functional parts: every recorded call of the real code *)
(* is one behaviour of one step, and its result must be the specified one.   *)
EXTENDS Naturals, Sequences, Json, TLC, IOUtils

File == JsonDeserialize(IOEnv.CASES)
Cases == File.cases
VARIABLE i
JInit == i \in 1..Len(Cases)
JNext == FALSE /\ UNCHANGED i
JSpec == JInit /\ [][JNext]_i
C == Cases[i]
\* Prints the cases that hold, with their kind.
Say(holds, kind) == holds => PrintT(<<"accept", C.id, kind>>)
=============================================================================
