---------------------------- MODULE EventStream ----------------------------
(* The Velox EDS event stream: a flat sequence of channel numbers and pixel  *)
(* marks.  An event belongs to the pixel being filled; a mark ends a pixel;  *)
(* after h*w pixels the next frame starts at pixel 0.                         *)
(* The small-step machine below is what a reader has to be equivalent to;    *)
(* `Declarative` states the same thing without a machine and the model        *)
(* checker compares the two on every stream of bounded length.                *)
EXTENDS VF
Mark == 65535

\* ---- the machine: one symbol at a time
Start == [pix |-> 0, frame |-> 0, cells |-> <<>>]
Symbol(s, v, c) ==
  IF v = Mark
    THEN IF s.pix + 1 = c.h * c.w
           THEN [s EXCEPT !.pix = 0, !.frame = @ + 1]
           ELSE [s EXCEPT !.pix = @ + 1]
    ELSE IF s.frame < c.first \/ s.frame >= c.last THEN s
         ELSE [s EXCEPT !.cells =
                Append(@, <<IF c.sumf THEN 0 ELSE s.frame - c.first, s.pix, v \div c.rebin>>)]
Run(stream, c) == FoldLeft(LAMBDA s, v: Symbol(s, v, c), Start, stream).cells

\* ---- the same, declaratively
MarksBefore(stream, k) == Cardinality({j \in 1..(k-1) : stream[j] = Mark})
FrameOf(stream, k, c) == MarksBefore(stream, k) \div (c.h * c.w)
Declarative(stream, c) ==
  LET keep == SelectSeq([k \in 1..Len(stream) |-> k],
                 LAMBDA k: /\ stream[k] # Mark
                           /\ FrameOf(stream, k, c) >= c.first
                           /\ FrameOf(stream, k, c) < c.last)
  IN [i \in 1..Len(keep) |->
        LET k == keep[i] IN
        <<IF c.sumf THEN 0 ELSE FrameOf(stream, k, c) - c.first,
          MarksBefore(stream, k) % (c.h * c.w), stream[k] \div c.rebin>>]

\* ---- number of frames when the file does not say
CountMarks(stream) == Cardinality({j \in 1..Len(stream) : stream[j] = Mark})
FramesIn(stream, h, w) == CeilDiv(CountMarks(stream), h * w)

\* ---- flat (C order) index of a cell in the returned array
Flat(cell, c) == (cell[1] * c.h * c.w + cell[2]) * (c.bins \div c.rebin) + cell[3]
=============================================================================
