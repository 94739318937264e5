-------------------------- MODULE JeolStreamTrace --------------------------
(* Judges what rsciio returned for a crafted JEOL .pts file.                  *)
EXTENDS JeolStream
VARIABLES l, st, fails
Init0 == 0
FullW(e) == e.c.w  FullH(e) == e.c.h
Words(e) == [i \in 1..Len(e.words) |-> <<e.words[i] \div 4096, e.words[i] % 4096>>]
MustReject(e) == \/ e.c.w % e.c.dsx # 0 \/ e.c.h % e.c.dsy # 0 \/ e.c.N % e.c.rebin # 0
Flat(p, c) == ((p[1] * Height(c) + p[2]) * Width(c) + p[3]) * Channels(c) + p[4]
FlatEm(p, c) == (p[1] * Height(c) + p[2]) * Width(c) + p[3]
Shape2(fr, c) == (IF c.sumf THEN <<>> ELSE <<Len(Returned(fr, c))>>) \o <<Height(c), Width(c)>>
Counts(flat) == [v \in Range(flat) |-> Cardinality({k \in 1..Len(flat) : flat[k] = v})]
SparseOK(nz, f) == /\ {nz[i][1] : i \in 1..Len(nz)} = DOMAIN f
                   /\ \A i \in 1..Len(nz) : nz[i][2] = f[nz[i][1]]
MaxCount(flat) == IF Len(flat) = 0 THEN 0 ELSE Max(Range(Counts(flat)))
\* sum of the electron image values at each cell that is not zero
EmSum(im, c) ==
  LET cells == {FlatEm(im[k], c) : k \in 1..Len(im)}
      s == [v \in cells |-> SumSeq([k \in 1..Len(im) |-> IF FlatEm(im[k], c) = v THEN im[k][4] ELSE 0])]
  IN [v \in {x \in cells : s[x] # 0} |-> s[v]]
Bad(s, e) ==
  IF MustReject(e) THEN If(IsErr(e.obs) /\ e.obs.err = "ValueError", "must-reject")
  ELSE
  LET c == e.c
      fr == Frames(Words(e))
      ev == Events(fr, c)
      flat == [i \in 1..Len(ev) |-> Flat(ev[i], c)]
      \* the events counted before incomplete frames are taken out
      evi == Events(fr, [c EXCEPT !.valid = FALSE])
      flati == [i \in 1..Len(evi) |-> Flat(evi[i], c)]
  IN
  IF MaxCount(flat) >= e.maxval THEN If(IsErr(e.obs) /\ e.obs.err = "ValueError", "overflow-must-reject")
  ELSE IF IsErr(e.obs)
    THEN If(MaxCount(flati) >= e.maxval /\ e.obs.err = "ValueError", "error-" \o e.obs.err)
  ELSE
  LET o == e.obs  sh == Shape2(fr, c)  im == Image(fr, c)
      anyem == \E i \in Req(c) : i < Len(fr) /\ fr[i+1].hasem IN
    If(o.si.shape = sh \o <<Channels(c)>>, "shape")
    \cup If(o.si.dtype = e.dtype, "dtype")
    \cup If(SparseOK(o.si.nz, Counts(flat)), "counts")
    \cup If([i \in 1..Len(o.si.ax) |-> o.si.ax[i].size] = o.si.shape, "axis-sizes")
    \cup If([i \in 1..Len(o.si.ax) |-> o.si.ax[i].name] =
              (IF c.sumf THEN <<>> ELSE <<"Frame">>) \o <<"y", "x", "Energy">>, "axis-names")
    \cup If([i \in 1..Len(o.si.ax) |-> o.si.ax[i].navigate] =
              (IF c.sumf THEN <<>> ELSE <<TRUE>>) \o <<TRUE, TRUE, FALSE>>, "axis-roles")
    \* calibrations in units of 1e-6 (scaled by the driver)
    \cup If(LET k == Len(o.si.ax) IN
              /\ o.si.ax[k].scale = e.coefa * c.rebin
              /\ o.si.ax[k].offset = e.coefb - e.coefa * e.digz, "energy-calibration")
    \cup If(LET k == Len(o.si.ax) IN
              /\ o.si.ax[k-1].scale * c.w = e.field * c.dsx
              /\ o.si.ax[k-2].scale * c.h = e.field * c.dsy, "map-calibration")
    \cup (IF c.sumf THEN {} ELSE If(o.si.ax[1].scale = e.dwell * c.w * c.h * 1000, "frame-time"))
    \cup If(o.si.orig = e.tags, "original-metadata")
    \cup If(o.si.kv = e.kv /\ o.si.mode = (IF e.kv <= 30 THEN "SEM" ELSE "TEM"), "metadata")
    \cup If(Len(o.em) = (IF e.em /\ anyem THEN 1 ELSE 0), "electron-image-returned")
    \cup (IF Len(o.em) # 1 THEN {} ELSE
          If(o.em[1].shape = sh, "electron-image-shape")
          \cup If(SparseOK(o.em[1].nz, EmSum(im, c)), "electron-image")
          \cup If([i \in 1..Len(o.em[1].ax) |-> o.em[1].ax[i].size] = sh, "electron-image-axes"))
    \cup If(o.args, "argument-changed")
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
