------------------------------ MODULE TraceLz ------------------------------
(* Each recorded (de)compression must be a behaviour of this decoder: one    *)
(* token at a time, with the text it yields compared with the text recorded. *)
(* What the code compressed must be read back by it, using all the bytes.    *)
EXTENDS LzHuf, Json, IOUtils

File == JsonDeserialize(IOEnv.CASES)
Cases == File.cases
VARIABLES i, tree, j, n, st, seen
vars == <<i, tree, j, n, st, seen>>
C == Cases[i]
Trip == C.q.f = "trip"
Compressed == C.q.f = "encdec"
Z == IF Compressed THEN C.r.z ELSE C.q.b
Size == IF Compressed THEN Len(C.q.b) ELSE C.q.n
Filled == Compressed \/ C.r.k = "ok"
B == IF Compressed THEN C.q.b ELSE C.r.b
Bits == 8 * Len(Z)
Pw == <<128, 64, 32, 16, 8, 4, 2, 1>>
BitOf(z, x) == (z[(x \div 8) + 1] \div Pw[(x % 8) + 1]) % 2

WindowSize == 2048
Longest == 60
Shortest == 3

\* Computed once.
ASSUME TLCSet(7, InitTree)
Init == /\ i \in 1..Len(Cases) /\ tree = TLCGet(7) /\ j = 0 /\ n = 0 /\ seen = {}
        /\ st = IF Trip THEN "trip" ELSE "run"

\* The text so far is the recorded one; before it there are spaces.
Text(x) == IF x >= 1 THEN B[x] ELSE 32
Sym == ReadSymbol(tree, Z, Bits, j)
LengthOf(c) == c - 256 + Shortest
Min2(a, b) == IF a <= b THEN a ELSE b

Step ==
  /\ st = "run" /\ n < Size
  /\ LET y == Sym IN
     IF y.k = "more" THEN st' = "eof" /\ UNCHANGED <<i, tree, j, n, seen>>
     ELSE IF y.c < 256 THEN
       /\ st' = IF Filled /\ B[n + 1] # y.c THEN "wrong" ELSE "run"
       /\ tree' = Update(tree, y.c) /\ j' = y.j /\ n' = n + 1
       /\ seen' = seen \cup {"literal"} \cup (IF tree.f[R] = MaxFreq THEN {"rebuild"} ELSE {}) \cup (IF y.j - j > 16 THEN {"code longer than 16 bits"} ELSE {})
       /\ UNCHANGED i
     ELSE
       LET rp == ReadPosition(Z, Bits, y.j)
           \* The window has no more places; no legal stream goes beyond.
           p == IF rp.k = "more" THEN rp ELSE [rp EXCEPT !.p = @ % WindowSize]
           len == Min2(LengthOf(y.c), Size - n)
       IN IF p.k = "more" THEN st' = "eof" /\ UNCHANGED <<i, tree, j, n, seen>>
          ELSE /\ st' = IF Filled /\ \E x \in 1..len : B[n + x] # Text(n + x - p.p - 1) THEN "wrong" ELSE "run"
               /\ tree' = Update(tree, y.c) /\ j' = p.j /\ n' = n + len
               /\ seen' = seen \cup {"match"} \cup (IF tree.f[R] = MaxFreq THEN {"rebuild"} ELSE {})
                            \cup (IF y.j - j > 16 THEN {"code longer than 16 bits"} ELSE {})
                            \cup (IF p.p >= n THEN {"match before the start"} ELSE {})
                            \cup (IF p.p >= 1024 THEN {"far match"} ELSE {})
                            \cup (IF rp.p >= WindowSize THEN {"position beyond the window"} ELSE {})
                            \cup (IF len > p.p + 1 THEN {"match overlapping itself"} ELSE {})
                            \cup (IF len < LengthOf(y.c) THEN {"match cut at the declared size"} ELSE {})
               /\ UNCHANGED i
Finish == st = "run" /\ n = Size /\ st' = "done" /\ UNCHANGED <<i, tree, j, n, seen>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

\* The code that was compressed: nothing but padding after it.
Exact == Compressed => Bits - j < 8 /\ C.r.same
Fine == CASE st = "done" -> Filled /\ Len(B) = Size /\ Exact
          [] st = "eof"  -> ~Filled /\ C.r.k = "eof"
          [] st = "trip" -> C.r.same
          [] OTHER -> FALSE
Judged == (st # "run" /\ Fine) => PrintT(<<"accept", C.id, <<st, seen>>>>)
=============================================================================
