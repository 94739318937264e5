---------------------------- MODULE TvipsSeriesMC ----------------------------
(* A recording as a machine: the beam goes over the scan - winding or not -   *)
(* and frames are recorded: none (dropped), one or two at each position.      *)
(* A film without drops is arranged so that each position has the frame       *)
(* recorded there; whatever was dropped, every position has a frame of the    *)
(* scan, positions with a frame of their own have it, and frames stay in      *)
(* order.                                                                     *)
EXTENDS TvipsSeries
CONSTANTS Side, Before
VARIABLES shape, wind, pos, rot, own
vars == <<shape, wind, pos, rot, own>>
Init == /\ shape \in {<<a, b>> : a, b \in 1..Side} /\ wind \in {"", "x", "y"}
        /\ \E k \in Before : rot = [i \in 1..k |-> 0]
        /\ pos = 1 /\ own = <<>>
N == ProdSeq(shape)
\* the first and the last position are always recorded
Shot(m) == /\ pos <= N
           /\ (pos \in {1, N} => m = 1)
           /\ rot' = rot \o [i \in 1..m |-> pos]
           /\ own' = Append(own, IF m = 0 THEN -1 ELSE Len(rot))
           /\ pos' = pos + 1
           /\ UNCHANGED <<shape, wind>>
Rest == /\ pos = N + 1 /\ rot' = Append(rot, 0) /\ pos' = N + 2 /\ UNCHANGED <<shape, wind, own>>
Next == (\E m \in 0..2 : Shot(m)) \/ Rest
Spec == Init /\ [][Next]_vars
Done == pos > N /\ N > 1
Grid == [p \in 1..N |-> AutoFrame(p, rot)]
OwnFrames == Done => \A p \in 1..N : own[p] >= 0 /\ (p = 1 \/ own[p-1] >= 0) => Grid[p] = own[p]
OfTheScan == Done => \A p \in 1..N : rot[Grid[p] + 1] \in 1..p
InOrder == Done => \A p \in 2..N : Grid[p - 1] <= Grid[p]
\* where the beam is when frame k is recorded (0-based), winding
Where(k) ==
  LET Y == shape[1]  X == shape[2]  r == k \div X  c == k % X IN
  CASE wind = "x" /\ r % 2 = 0 -> (r * X) + (X - 1 - c)
    [] wind = "y" /\ c % 2 = 0 -> ((Y - 1 - r) * X) + c
    [] OTHER -> k
Placed == \A k \in 0..(N - 1) : FrameAt(Where(k) + 1, shape, 0, wind, 0) = k
Everything == \A lag \in {-1, 0, 1, 2} : {FrameAt(p, shape, 0, wind, lag) : p \in 1..N} = 0..(N - 1)
\* a lag of the whole line is none; lags add up
WholeLag == \A p \in 1..N : FrameAt(p, shape, 0, wind, IF wind = "y" THEN shape[1] ELSE shape[2]) = FrameAt(p, shape, 0, wind, 0)
=============================================================================
