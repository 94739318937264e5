--------------------------------- MODULE VF ---------------------------------
(* Helpers shared by every specification: trace input, verdict output,      *)
(* integer and sequence arithmetic.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt,
        FiniteSetsExt, Functions

\* ---- sequences
SumSeq(s)       == FoldLeft(LAMBDA a, b: a + b, 0, s)
ProdSeq(s)      == FoldLeft(LAMBDA a, b: a * b, 1, s)
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Sub(s, a, b)    == IF b < a THEN <<>> ELSE SubSeq(s, a, b)
Max2(a, b)      == IF a > b THEN a ELSE b
Min2(a, b)      == IF a < b THEN a ELSE b
CeilDiv(a, b)   == (a + b - 1) \div b
Has(r, k)       == k \in DOMAIN r
Get(r, k, d)    == IF k \in DOMAIN r THEN r[k] ELSE d
Idx(s, P(_))    == {i \in 1..Len(s) : P(s[i])}
ToSeq0(n)       == [i \in 1..n |-> i - 1]
Const(n, v)     == [i \in 1..n |-> v]
Put(s, i, v)    == [s EXCEPT ![i] = v]
If(c, n)        == IF c THEN {} ELSE {n}     \* named clause: fails unless c
IsErr(o)        == "err" \in DOMAIN o
=============================================================================
