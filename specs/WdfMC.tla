--------------------------------- MODULE WdfMC ---------------------------------
(* A measurement writes spectra and positions into a file with room for all;   *)
(* it may stop at any time. Cells: what was written where; -1 for nothing.     *)
EXTENDS Wdf
CONSTANTS N, P, K
VARIABLES num, data, origins
vars == <<num, data, origins>>
Sx == 2
Init == /\ num = 0 /\ data = [i \in 0..(N * P) - 1 |-> -1] /\ origins = [i \in 0..(K * (3 + N)) - 1 |-> -1]
\* spectrum s, channel c is s * 10 + c; position of axis k is s * 10 + k
Measure == /\ num < N
           /\ num' = num + 1
           /\ data' = [i \in DOMAIN data |-> IF \E c \in 0..P - 1 : i = DataAt(P, num, c) THEN (num * 10) + (i - DataAt(P, num, 0)) ELSE data[i]]
           /\ origins' = [i \in DOMAIN origins |-> IF \E k \in 0..K - 1 : i = OriginAt(N, k, num) THEN (num * 10) + (CHOOSE k \in 0..K - 1 : i = OriginAt(N, k, num)) ELSE origins[i]]
Spec == Init /\ [][Measure]_vars
\* everything measured is found, wherever it stopped
Found == /\ \A s \in 0..num - 1, c \in 0..P - 1 : data[DataAt(P, s, c)] = (s * 10) + c
         /\ \A k \in 0..K - 1, s \in 0..num - 1 : origins[OriginAt(N, k, s)] = (s * 10) + k
E0(w, mt, flag) ==
  [num |-> num, cap |-> N, w |-> w, xunit |-> 1, uniform |-> FALSE, mtype |-> mt, hyp |-> 5, rows |-> [s \in 1..num |-> [c \in 1..P |-> data[DataAt(P, s - 1, c - 1)]]],
   origins |-> <<[type |-> "Z", unit |-> 5, a |-> [s \in 1..num |-> s]]>>, map |-> [flag |-> flag, off |-> <<1, 2>>, scale |-> <<3, 4>>, size |-> IF flag = 128 THEN <<N, 1>> ELSE <<Sx, N \div Sx>>]]
Ws == {[c \in 1..P |-> c], [c \in 1..P |-> P - c]}
\* data agree with their axes, begin with the first spectrum, and hold no more than was measured
Shapes == num > 0 => \A w \in Ws, mt \in {1, 2, 3}, flag \in {0, 128} :
  LET e == E0(w, mt, flag) IN (mt # 1 \/ num = 1 \/ num = N) =>
  /\ Len(Data(e)) = Prod(Sizes(NavAxes(e))) * P
  /\ (mt # 1 => \A s \in 0..(Len(Data(e)) \div P) - 1, c \in 1..P : Data(e)[(s * P) + c] = (s * 10) + (IF Descends(w) THEN P - c ELSE c - 1))
  /\ (mt = 3 /\ flag = 0 => Len(Data(e)) \div P > num - Sx)
================================================================================
