-------------------------- MODULE EventStreamTrace --------------------------
(* Judges what rsciio returned for a crafted Velox file.                      *)
EXTENDS EventStream
VARIABLES l, st, fails
Init0 == 0
LastFrame(e) == IF e.last >= 0 THEN e.last
           ELSE IF e.endpos >= 0 THEN e.endpos
           ELSE FramesIn(e.streams[1], e.h, e.w)
Cfg(e) == [h |-> e.h, w |-> e.w, bins |-> e.bins, rebin |-> e.rebin,
           sumf |-> e.sumf, first |-> e.first, last |-> LastFrame(e)]
MustReject(e) == \/ e.bins % e.rebin # 0
                 \/ (e.endpos > 0 /\ e.last > e.endpos)
\* frames in the file: told by the settings, or found when reading to the end
NFrames(e) == IF e.endpos >= 0 THEN e.endpos ELSE LastFrame(e)
Want(e) == \* one sequence of cells per returned signal
  IF e.sumd THEN <<FoldLeft(LAMBDA a, s: a \o Run(s, Cfg(e)), <<>>, e.streams)>>
            ELSE [i \in 1..Len(e.streams) |-> Run(e.streams[i], Cfg(e))]
Shape(e) == (IF e.sumf THEN <<>> ELSE <<LastFrame(e) - e.first>>)
            \o <<e.h, e.w, e.bins \div e.rebin>>
CountsOK(cells, o, c) ==
  LET flat == [i \in 1..Len(cells) |-> Flat(cells[i], c)] IN
  /\ SumSeq([i \in 1..Len(o.nz) |-> o.nz[i][2]]) = Len(cells)
  /\ \A i \in 1..Len(o.nz) :
        Cardinality({k \in 1..Len(flat) : flat[k] = o.nz[i][1]}) = o.nz[i][2]
ImagePlane(e, o) == \* image data was 1000*frame + 10*row + col, see driver
  /\ o.shape = (IF e.stack /\ e.nimg > 1 THEN <<e.nimg>> ELSE <<>>) \o <<e.h, e.w>>
  /\ \A i \in 1..Len(o.flat) :
       LET k == i - 1
           f == k \div (e.h * e.w)  r == (k % (e.h * e.w)) \div e.w  x == k % e.w
       IN o.flat[i] = 1000 * f + 10 * r + x
Bad(s, e) ==
  IF MustReject(e) THEN If(IsErr(e.obs) /\ e.obs.err = "ValueError", "must-reject")
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE LET w == Want(e)  c == Cfg(e)  o == e.obs.si IN
       If(Len(o) = Len(w), "number-of-signals")
       \cup (IF Len(o) # Len(w) THEN {} ELSE
         UNION {If(o[i].shape = Shape(e), "shape") : i \in 1..Len(w)}
         \cup UNION {If(CountsOK(w[i], o[i], c), "counts") : i \in 1..Len(w)}
         \cup UNION {If(o[i].axsizes = Shape(e), "axis-sizes") : i \in 1..Len(w)}
         \cup UNION {If(o[i].esc = e.disp * e.rebin, "energy-scale") : i \in 1..Len(w)}
         \cup UNION {If(o[i].eoff = e.eoff, "energy-offset") : i \in 1..Len(w)}
         \cup UNION {If(o[i].dtype = e.dtype, "dtype") : i \in 1..Len(w)}
         \cup UNION {If(o[i].meta = <<e.first, LastFrame(e), e.bins, e.rebin>>, "frame-metadata")
                       : i \in 1..Len(w)}
         \cup (IF e.endpos < 0 /\ e.last >= 0 THEN {} ELSE
               UNION {If(o[i].nframes = NFrames(e), "number-of-frames") : i \in 1..Len(w)}))
       \cup (IF e.imgs THEN
               If(Len(e.obs.img) = 1 /\ ImagePlane(e, e.obs.img[1]), "image-stack")
             ELSE If(Len(e.obs.img) = 0, "unrequested-image"))
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
