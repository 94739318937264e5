----------------------------- MODULE TvipsSeries -----------------------------
(* TVIPS recordings: a film of frames cut into files _000, _001, ... of any   *)
(* number of frames.  A film may have been recorded while the beam scanned:   *)
(* then the frames are put at the scan positions.                             *)
EXTENDS VF
\* the files that belong to the film: all numbers from 0 up to the first gap
RECURSIVE UpToGap(_, _)
UpToGap(present, k) == IF k \in present THEN UpToGap(present, k + 1) ELSE k
Parts(present) == UpToGap(present, 0)
FramesOf(counts, present) == SumSeq(Sub(counts, 1, Parts(present)))
\* ---- a scan of given shape: the last two dimensions are y and x.  If the
\* beam winds, the first, third... line (column) was recorded backwards, and
\* lags by some points
Ix(p, shape) == (p - 1) % shape[Len(shape)]
Iy(p, shape) == IF Len(shape) < 2 THEN 0 ELSE ((p - 1) \div shape[Len(shape)]) % shape[Len(shape) - 1]
FrameAt(p, shape, start, wind, lag) ==
  LET X == shape[Len(shape)]
      Y == IF Len(shape) < 2 THEN 1 ELSE shape[Len(shape) - 1]
      x == Ix(p, shape)  y == Iy(p, shape)
      block == ((p - 1) \div (X * Y)) * (X * Y)
      xx == IF wind = "x" /\ y % 2 = 0 THEN X - 1 - ((x - lag) % X) ELSE x
      yy == IF wind = "y" /\ x % 2 = 0 THEN Y - 1 - ((y - lag) % Y) ELSE y IN
  start + block + (yy * X) + xx
\* ---- the rotator: frames before the scan have 0, those of the scan the
\* number of their position (some missing, some twice), those after it 0
ScanFrames(rot) ==
  IF \A i \in 2..Len(rot) : rot[i] <= rot[i - 1] THEN <<>>    \* it never moves
  ELSE SelectSeq([i \in 1..Len(rot) |-> i], LAMBDA i : rot[i] > 0)
LastPos(rot) == Max({rot[i] : i \in 1..Len(rot)})
\* the frame of position p: the one recorded there or, if frames are missing,
\* the next of the frames with the number before, or else the last of them
AutoFrame(p, rot) ==
  LET s == ScanFrames(rot)
      before == {rot[i] : i \in {s[k] : k \in {j \in 1..Len(s) : rot[s[j]] <= p}}} IN
  IF before = {} THEN s[1] - 1
  ELSE LET v == Max(before)  g == SelectSeq(s, LAMBDA i : rot[i] = v) IN
       g[Min2(p - v + 1, Len(g))] - 1
Root(n) == IF \E k \in 1..n : k * k = n THEN CHOOSE k \in 1..n : k * k = n ELSE 0
\* ---- the frames a read returns, and over which dimensions
ScanShape(c) == IF c.auto THEN <<Root(LastPos(c.rot)), Root(LastPos(c.rot))>> ELSE c.shape
Refused(c) ==
  \/ c.auto /\ (ScanFrames(c.rot) = <<>> \/ Root(LastPos(c.rot)) = 0)
  \/ ~c.auto /\ Len(c.shape) > 0 /\ c.start + ProdSeq(c.shape) > c.n
  \/ (c.auto \/ Len(c.shape) > 0) /\ c.wind \notin {"", "x", "y"}
NavShape(c) == IF ~c.auto /\ c.shape = <<>> THEN <<c.n>> ELSE ScanShape(c)
Frames(c) ==
  IF ~c.auto /\ c.shape = <<>> THEN ToSeq0(c.n)
  ELSE LET s == ScanShape(c) IN
       [p \in 1..ProdSeq(s) |->
         LET q == FrameAt(p, s, 0, c.wind, c.lag) IN
         IF c.auto THEN AutoFrame(q + 1, c.rot) ELSE c.start + q]
=============================================================================
