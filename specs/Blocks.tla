------------------------------- MODULE Blocks -------------------------------
(* Cutting an array of a given shape in blocks, and reading it block by      *)
(* block from a file that holds it in C or Fortran order (or as frames in an *)
(* arbitrary order).                                                          *)
EXTENDS VF
\* all index tuples of a shape, 0-based, as a set
RECURSIVE Tuples(_)
Tuples(shape) ==
  IF Len(shape) = 0 THEN {<<>>}
  ELSE {<<i>> \o t : i \in 0..(shape[1] - 1), t \in Tuples(Tail(shape))}
\* position in the file of the element with index tuple t
CIndex(t, shape) == FoldLeft(LAMBDA a, k: a * shape[k] + t[k], 0, [k \in 1..Len(shape) |-> k])
FIndex(t, shape) ==
  FoldLeft(LAMBDA a, k: a * shape[k] + t[k], 0, [k \in 1..Len(shape) |-> Len(shape) + 1 - k])
\* index tuple of the n-th element in C order
Unflat(n, shape) ==
  [k \in 1..Len(shape) |->
     (n \div ProdSeq(Sub(shape, k + 1, Len(shape)))) % shape[k]]
Starts(sizes) == [k \in 1..Len(sizes) |-> SumSeq(Sub(sizes, 1, k - 1))]
\* the blocks of a cut (one sequence of block sizes per dimension)
RECURSIVE BlocksOf(_)
BlocksOf(cut) ==
  IF Len(cut) = 0 THEN {<<>>}
  ELSE {<<<<Starts(cut[1])[k], Starts(cut[1])[k] + cut[1][k]>>>> \o b :
          k \in 1..Len(cut[1]), b \in BlocksOf(Tail(cut))}
InBlock(t, b) == \A k \in 1..Len(t) : t[k] >= b[k][1] /\ t[k] < b[k][2]
\* a cut covers the array exactly
Covers(cut, shape) ==
  /\ Len(cut) = Len(shape)
  /\ \A k \in 1..Len(shape) : SumSeq(cut[k]) = shape[k]
\* regular cut of n in pieces of c (0-size arrays are one empty block)
Regular(n, c) ==
  IF n = 0 THEN <<0>>
  ELSE [k \in 1..CeilDiv(n, c) |-> IF k * c <= n THEN c ELSE n - (k - 1) * c]
\* does the cut of one dimension follow what was asked for?
Follows(cut, n, asked) ==
  IF asked.kind = "whole" THEN cut = <<n>>
  ELSE IF asked.kind = "size" THEN cut = Regular(n, asked.n)
  ELSE IF asked.kind = "list" THEN cut = asked.list
  ELSE SumSeq(cut) = n
=============================================================================
