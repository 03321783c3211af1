------------------------------- MODULE MCLzHuf -------------------------------
(* An encoder and a decoder with few symbols: every sequence of symbols, of  *)
(* any length, through every rebuild of the tree.                            *)
EXTENDS LzHuf
VARIABLES enc, dec, bits, sent, got
vars == <<enc, dec, bits, sent, got>>

Init == enc = InitTree /\ dec = InitTree /\ bits = <<>> /\ sent = <<>> /\ got = <<>>
\* At most two symbols are under way.
Send(c) == /\ Len(sent) < 2
           /\ bits' = bits \o CodeOf(enc, c) /\ enc' = Update(enc, c) /\ sent' = Append(sent, c)
           /\ UNCHANGED <<dec, got>>
Get == LET x == ReadSymbol(dec, bits, Len(bits), 0)
       IN /\ sent # <<>> /\ x.k = "sym"
          /\ got' = <<x.c, Head(sent)>> /\ sent' = Tail(sent)
          /\ dec' = Update(dec, x.c) /\ bits' = SubSeq(bits, x.j + 1, Len(bits))
          /\ UNCHANGED enc
Next == (\E c \in 0..(NChar - 1) : Send(c)) \/ Get
Spec == Init /\ [][Next]_vars

Trees == GoodTree(enc) /\ GoodTree(dec)
Prefix == PrefixFree(enc)
Same == got # <<>> => got[1] = got[2]
Together == sent = <<>> => enc = dec /\ bits = <<>>
\* A symbol can always be read from what was sent.
Readable == sent # <<>> => ReadSymbol(dec, bits, Len(bits), 0).k = "sym"
\* Every symbol has a code, none longer than there are inner nodes.
Codes == \A c \in 0..(NChar - 1) : Len(CodeOf(enc, c)) \in 1..(NChar - 1)
Weights == enc.f[R] <= MaxFreq

BitOf(z, j) == z[j + 1]
=============================================================================
