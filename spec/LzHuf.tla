------------------------------- MODULE LzHuf -------------------------------
(* LZHUF: LZSS tokens in an adaptive Huffman code (Okumura and Yoshizaki),   *)
(* as used by FBB and Winlink. The code tree is the state shared by encoder  *)
(* and decoder; each symbol changes it.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS NChar,    \* symbols: 256 characters, then match lengths
          MaxFreq,  \* weight of the root at which the tree is rebuilt
          Bit(_, _) \* Bit(z, j): bit j of z, from 0

T == 2 * NChar - 1
R == T - 1
Infinity == 65535

(* A tree: f the weights of nodes 0..T-1 (T is a sentinel), in increasing    *)
(* order; s[i] the first of two adjacent children of node i, or T + c for a  *)
(* leaf that stands for symbol c; p the parents of nodes, and of leaf T + c. *)
Upto(n) == [x \in 1..n |-> x]
\* The inner nodes above the leaves, in pairs.
Sum2(f, x) == LET j == NChar + x - 1 IN [f EXCEPT ![j] = f[2 * (j - NChar)] + f[2 * (j - NChar) + 1]]
Connect(f, s) ==
  LET Link(p, x) == LET i == x - 1 IN IF s[i] >= T THEN [p EXCEPT ![s[i]] = i] ELSE [p EXCEPT ![s[i]] = i, ![s[i] + 1] = i]
  IN [f |-> f, s |-> s, p |-> FoldLeft(Link, TLCEval([k \in 0..(T + NChar - 1) |-> 0]), Upto(T))]

InitTree ==
  LET f0 == TLCEval([i \in 0..T |-> IF i < NChar THEN 1 ELSE IF i = T THEN Infinity ELSE 0])
  IN Connect(FoldLeft(Sum2, f0, Upto(NChar - 1)), TLCEval([i \in 0..R |-> IF i < NChar THEN T + i ELSE 2 * (i - NChar)]))

(* Rebuilding: the leaves keep their order and halve their weights (rounded  *)
(* up), then pairs are joined in order, each sum going behind the nodes that *)
(* weigh no more.                                                            *)
Leaves(t) == LET nodes == [x \in 1..T |-> [f |-> (t.f[x - 1] + 1) \div 2, s |-> t.s[x - 1]]]
                 Leaf(n) == n.s >= T
             IN SelectSeq(nodes, Leaf)
RECURSIVE Behind(_, _, _)
Behind(ns, f, k) == IF k > 0 /\ f < ns[k].f THEN Behind(ns, f, k - 1) ELSE k
\* ns: the nodes so far, by position (position i + 1 holds node i).
Pair(ns, x) ==
  LET i == 2 * (x - 1)
      f == ns[i + 1].f + ns[i + 2].f
      k == Behind(ns, f, Len(ns))
  IN SubSeq(ns, 1, k) \o <<[f |-> f, s |-> i]>> \o SubSeq(ns, k + 1, Len(ns))
Rebuild(t) ==
  LET ns == FoldLeft(Pair, Leaves(t), Upto(NChar - 1))
  IN Connect(TLCEval([i \in 0..T |-> IF i = T THEN Infinity ELSE ns[i + 1].f]), TLCEval([i \in 0..R |-> ns[i + 1].s]))

(* One more occurrence: on the way to the root each node gains one, having   *)
(* first changed places with the last node it then outweighs.                *)
RECURSIVE LastLess(_, _, _)
LastLess(f, k, l) == IF k > f[l + 1] THEN LastLess(f, k, l + 1) ELSE l
Moved(p, x, to) == IF x >= T THEN [p EXCEPT ![x] = to] ELSE [p EXCEPT ![x] = to, ![x + 1] = to]
RECURSIVE Climb(_, _)
Climb(t, c) ==
  LET k == t.f[c] + 1
      l == LastLess(t.f, k, c)
      u == IF l = c THEN [t EXCEPT !.f[c] = k]
           ELSE [f |-> [t.f EXCEPT ![c] = t.f[l], ![l] = k],
                 s |-> [t.s EXCEPT ![c] = t.s[l], ![l] = t.s[c]],
                 p |-> Moved(Moved(t.p, t.s[c], l), t.s[l], c)]
  IN IF l = R THEN u ELSE Climb(u, u.p[l])
Update(t, c) == LET u == IF t.f[R] = MaxFreq THEN Rebuild(t) ELSE t IN Climb(u, u.p[T + c])

\* The code of a symbol, from the root down: a node's bit is the parity of its number.
RECURSIVE CodeUp(_, _, _)
CodeUp(t, k, acc) == IF k = R THEN acc ELSE CodeUp(t, t.p[k], <<k % 2>> \o acc)
CodeOf(t, c) == CodeUp(t, t.p[T + c], <<>>)

\* Reading a symbol from bit j of z, which has n bits.
RECURSIVE Walk(_, _, _, _, _)
Walk(t, z, n, j, k) ==
  IF k >= T THEN [k |-> "sym", c |-> k - T, j |-> j]
  ELSE IF j >= n THEN [k |-> "more"]
  ELSE Walk(t, z, n, j + 1, t.s[k + Bit(z, j)])
ReadSymbol(t, z, n, j) == Walk(t, z, n, j, t.s[R])

-----------------------------------------------------------------------------
(* What makes a tree a code.                                                 *)
TypeOK(t) == DOMAIN t.f = 0..T /\ DOMAIN t.s = 0..R /\ DOMAIN t.p = 0..(T + NChar - 1)
Sorted(t) == \A i \in 0..(R - 1) : t.f[i] <= t.f[i + 1]
Sums(t) == \A i \in 0..R : t.s[i] < T => t.f[i] = t.f[t.s[i]] + t.f[t.s[i] + 1]
Linked(t) == \A i \in 0..R : IF t.s[i] >= T THEN t.p[t.s[i]] = i ELSE t.p[t.s[i]] = i /\ t.p[t.s[i] + 1] = i
AllSymbols(t) == {t.s[i] : i \in {x \in 0..R : t.s[x] >= T}} = T..(T + NChar - 1)

PrefixFree(t) == \A a, b \in 0..(NChar - 1) : a # b => ~IsPrefix(CodeOf(t, a), CodeOf(t, b))
GoodTree(t) == TypeOK(t) /\ Sorted(t) /\ Sums(t) /\ Linked(t) /\ AllSymbols(t)

-----------------------------------------------------------------------------
(* Positions: the upper six bits in a static code, the lower six as they are.*)
\* Code lengths: 1 of 3 bits, 3 of 4, 8 of 5, 12 of 6, 24 of 7, 16 of 8.
PLen(i) == IF i < 1 THEN 3 ELSE IF i < 4 THEN 4 ELSE IF i < 12 THEN 5 ELSE IF i < 24 THEN 6 ELSE IF i < 48 THEN 7 ELSE 8
\* Codes in increasing order, left-aligned in 8 bits.
PCode(i) == IF i < 1 THEN 0 ELSE IF i < 4 THEN 32 + 16 * (i - 1) ELSE IF i < 12 THEN 80 + 8 * (i - 4)
            ELSE IF i < 24 THEN 144 + 4 * (i - 12) ELSE IF i < 48 THEN 192 + 2 * (i - 24) ELSE 240 + (i - 48)
\* The upper part whose code the eight bits v begin with.
PUpper(v) == IF v < 32 THEN 0 ELSE IF v < 80 THEN 1 + (v - 32) \div 16 ELSE IF v < 144 THEN 4 + (v - 80) \div 8
             ELSE IF v < 192 THEN 12 + (v - 144) \div 4 ELSE IF v < 240 THEN 24 + (v - 192) \div 2 ELSE 48 + (v - 240)
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256
\* The code is complete and prefix-free: each code follows the one before, and the last ends at 256.
ASSUME /\ PCode(0) = 0 /\ PCode(63) + Pow2(8 - PLen(63)) = 256
       /\ \A i \in 1..63 : PCode(i) = PCode(i - 1) + Pow2(8 - PLen(i - 1))
       /\ \A v \in 0..255 : LET i == PUpper(v) IN i \in 0..63 /\ PCode(i) <= v /\ v < PCode(i) + Pow2(8 - PLen(i))
RECURSIVE Value(_, _, _, _)
Value(z, j, n, acc) == IF n = 0 THEN acc ELSE Value(z, j + 1, n - 1, 2 * acc + Bit(z, j))
ReadPosition(z, n, j) ==
  IF j + 9 > n THEN [k |-> "more"]
  ELSE LET u == PUpper(Value(z, j, 8, 0))
           e == j + PLen(u) + 6
       IN IF e > n THEN [k |-> "more"] ELSE [k |-> "pos", p |-> 64 * u + Value(z, j + PLen(u), 6, 0), j |-> e]
=============================================================================
