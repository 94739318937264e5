------------------------------- MODULE SerFile -------------------------------
(* TIA .ser files: a series of spectra or images (elements), recorded one    *)
(* after the other over the dimensions given in the header; an acquisition   *)
(* may stop before all of them are recorded.                                  *)
EXTENDS VF
\* The scan is stored fastest dimension first when two successive elements    *
\* are on the same line
Reversed(c) == c.tag = "xy" /\ c.valid > 1 /\ c.ypos[1] = c.ypos[2]
Dims(c) == IF Reversed(c) THEN Reverse(c.dims) ELSE c.dims
\* dimensions of one image only are not dimensions of the result
Kept(c) == IF c.kind = "spectrum" THEN Dims(c)
           ELSE SelectSeq(Dims(c), LAMBDA d: d.size # 1)
Stopped(c) == c.total # c.valid
\* navigation axes of the result
Nav(c) ==
  IF Len(c.dims) = 1 /\ Stopped(c) /\ c.onlyvalid
    THEN IF c.valid = 1 THEN <<>> ELSE <<[Kept(c)[1] EXCEPT !.size = c.valid]>>
    ELSE Kept(c)
NavShape(c) == [i \in 1..Len(Nav(c)) |-> Nav(c)[i].size]
SigShape(c) == IF c.kind = "spectrum" THEN <<c.w>> ELSE <<c.h, c.w>>
Shape(c) == NavShape(c) \o SigShape(c)
\* element (0-based) at each navigation position, -1 where nothing was recorded
Elements(c) == [i \in 1..ProdSeq(NavShape(c)) |-> IF i <= c.valid THEN i - 1 ELSE -1]
\* names: the spatial dimensions are y, x from the slow to the fast one
RECURSIVE Names(_, _)
Names(ds, left) ==
  IF Len(ds) = 0 THEN <<>>
  ELSE IF ds[1].units = "meters" /\ Len(left) > 0
    THEN <<left[Len(left)]>> \o Names(Tail(ds), Sub(left, 1, Len(left) - 1))
    ELSE <<"null">> \o Names(Tail(ds), left)
\* units and the factor applied to the calibration (in powers of ten)
Unit(u) == IF u = "meters" THEN "nm" ELSE IF u = "1/meters" THEN "1 / nm" ELSE IF u = "" THEN "null" ELSE u
\* calibration of dimension d: value of the first element
Offset(d) == d.off - d.elem * d.delta
=============================================================================
