------------------------------- MODULE BcfMC -------------------------------
(* Two parts of the design, exhaustively.                                     *)
(* 1. A reader of records of any length from blocks of any size: it keeps a   *)
(*    window [at, at + have) of the stream and a position in it, and takes in *)
(*    blocks until what it needs is there.                                    *)
(* 2. The packings: what is packed is what is unpacked.                       *)
EXTENDS Bcf
CONSTANTS BlockSizes, Lengths, Records, Vals
VARIABLES b, recs, k, at, have, off, got
vars == <<b, recs, k, at, have, off, got>>
Total == SumSeq(recs)
Init == /\ b \in BlockSizes
        /\ recs \in UNION {[1..n -> Lengths] : n \in 1..Records}
        /\ k = 1 /\ at = 0 /\ have = 0 /\ off = 0 /\ got = <<>>
\* one block more, what is consumed is let go
Load == /\ k <= Len(recs) /\ off + recs[k] > have
        /\ at' = at + off
        /\ have' = (have - off) + Min2(b, Total - (at + have))
        /\ off' = 0 /\ UNCHANGED <<b, recs, k, got>>
Take == /\ k <= Len(recs) /\ off + recs[k] <= have
        /\ got' = Append(got, <<at + off, recs[k]>>)
        /\ off' = off + recs[k] /\ k' = k + 1 /\ UNCHANGED <<b, recs, at, have>>
Next == Load \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every record is what lies at its place in the stream
InPlace == \A i \in 1..Len(got) : got[i] = <<SumSeq(Sub(recs, 1, i - 1)), recs[i]>>
Within == at + have <= Total /\ off <= have
Ends == <>(Len(got) = Len(recs))
\* ---- packings
Le(v, n) == [i \in 1..n |-> (v \div (CASE i = 1 -> 1 [] i = 2 -> 256 [] i = 3 -> 65536 [] OTHER -> 16777216)) % 256]
Zeros(n) == [i \in 1..n |-> 0]
Pack12(v) ==
  LET n == Len(v)  w == [i \in 1..(4 * CeilDiv(n, 4)) |-> IF i <= n THEN v[i] ELSE 0]
      group(g) == LET a == w[(4 * g) + 1]  c == w[(4 * g) + 2]  d == w[(4 * g) + 3]  f == w[(4 * g) + 4] IN
        <<((a % 16) * 16) + (c \div 256), a \div 16, d \div 16, c % 256, f % 256, ((d % 16) * 16) + (f \div 256)>>
  IN FoldLeft(LAMBDA s, g : s \o group(g), <<>>, ToSeq0(CeilDiv(n, 4)))
Pack16(v) == FoldLeft(LAMBDA s, x : s \o Le(x, 2), <<>>, v)
PackB(s, g, v) ==
  <<s, Len(v)>> \o (IF s = 0 THEN <<>>
    ELSE Le(g, Min2(s, 4)) \o Zeros(s - Min2(s, 4)) \o
      (IF s = 1 THEN [i \in 1..CeilDiv(Len(v), 2) |-> v[(2 * i) - 1] + (IF 2 * i <= Len(v) THEN 16 * v[2 * i] ELSE 0)]
       ELSE FoldLeft(LAMBDA q, x : q \o Le(x, s \div 2), <<>>, v)))
Small == UNION {[1..n -> Vals] : n \in 0..3}
Half(s) == CASE s = 1 -> {0, 1, 15} [] s = 2 -> {0, 17, 255} [] s = 4 -> {0, 256, 65535} [] s = 8 -> {0, 65536, 16777216}
ASSUME \A v \in Small : Pulses12(Pack12(v), Len(v)) = v /\ Pulses16(Pack16(v), Len(v)) = v
ASSUME \A s \in {1, 2, 4, 8}, g \in {0, 3, 200} : \A n \in 1..3 : \A v \in [1..n -> Half(s)] :
         LET p == PackB(s, g, v) IN Bunches(p \o PackB(0, 0, Zeros(2)) \o p, 1, (2 * Len(p)) + 2)
                                     = LET w == [i \in 1..n |-> v[i] + g] IN w \o <<0, 0>> \o w
=============================================================================
