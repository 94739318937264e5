--------------------------- MODULE EventStreamMC ---------------------------
(* Exhaustive check of the design: every stream of bounded length, every     *)
(* frame window, with and without frame summing.                              *)
EXTENDS EventStream
CONSTANTS H, W, Bins, Rebin, MaxLen
VARIABLES stream, c, m
vars == <<stream, c, m>>
Init == /\ stream = <<>>
        /\ m = Start
        /\ c \in [h: {H}, w: {W}, bins: {Bins}, rebin: {Rebin}, sumf: BOOLEAN,
                  first: 0..2, last: 0..3]
        /\ c.first <= c.last
Next == /\ Len(stream) < MaxLen
        /\ \E v \in (0..(Bins-1)) \cup {Mark} :
             /\ stream' = Append(stream, v)
             /\ m' = Symbol(m, v, c)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
MachineMeetsDeclaration == m.cells = Declarative(stream, c)
PixelInFrame == m.pix < H * W
CountsConserved ==
  (c.first = 0 /\ c.last > m.frame) =>
     Len(m.cells) + CountMarks(stream) = Len(stream)
\* Summing the per-frame images gives the summed image
SumOfFrames ==
  LET a == Run(stream, [c EXCEPT !.sumf = TRUE])
      b == Run(stream, [c EXCEPT !.sumf = FALSE])
  IN /\ Len(a) = Len(b)
     /\ \A i \in 1..Len(a) : a[i][2] = b[i][2] /\ a[i][3] = b[i][3]
\* Reading [0,k) and [k,n) partitions the events
WindowsPartition ==
  \A k \in c.first..c.last :
     Len(Run(stream, [c EXCEPT !.last = k])) + Len(Run(stream, [c EXCEPT !.first = k]))
       = Len(m.cells)
\* The number of frames deduced from the marks covers every event of a
\* well-formed stream (one that does not carry events after its last frame)
DeducedFramesCover ==
  LET f == FramesIn(stream, H, W) IN
  m.pix # 0 => m.frame < f
=============================================================================
