----------------------------- MODULE SerFileTrace -----------------------------
(* Judges what rsciio returned for crafted .ser and .emi files.  Calibration *)
(* values are integers in units of 1e-9 (the driver rescales what was read).  *)
EXTENDS SerFile
VARIABLES l, st, fails
Init0 == 0
Value(c, k, r, x) == (c.base + k * 17 + r * c.w + x) % c.mod
Empty(c) == IF c.float THEN -999 ELSE 0
WantFlat(c) ==
  LET e == Elements(c)  rows == IF c.kind = "spectrum" THEN 1 ELSE c.h IN
  FlattenSeq([i \in 1..Len(e) |->
    [p \in 1..(rows * c.w) |->
       LET r == (p - 1) \div c.w  x == (p - 1) % c.w IN
       IF e[i] = -1 THEN Empty(c) ELSE Value(c, e[i], rows - 1 - r, x)]])
\* units of an image series read with its .emi file
ImageUnits(c) ==
  IF c.mode = "none" THEN "meters"
  ELSE LET stack == c.dims[1].units = ""
           scan == c.dims[1].size > 1 /\ ~stack IN
       IF c.mode = "STEM" THEN (IF c.camera \/ scan THEN "1/meters" ELSE "meters")
       ELSE IF c.mode = "Diffraction" THEN "1/meters" ELSE "meters"
Rescaled(a, u) == \* calibration in the file -> result
  IF u = "meters" THEN a.n9 ELSE IF u = "1/meters" THEN a.p9 ELSE a.n0
SigAxes(c) ==
  IF c.kind = "spectrum"
    THEN <<[size |-> c.w, name |-> "Energy", units |-> "eV", d |-> c.sx]>>
    ELSE <<[size |-> c.h, name |-> "y", units |-> ImageUnits(c), d |-> c.sy],
           [size |-> c.w, name |-> "x", units |-> ImageUnits(c), d |-> c.sx]>>
BadAxis(o, size, name, units, d, navigate) ==
  If(o.size = size, "axis-size")
  \cup If(o.name = name, "axis-name")
  \cup If(o.units = Unit(units), "axis-units")
  \cup If(o.navigate = navigate, "axis-role")
  \cup If(Rescaled(o.scale, units) = d.delta, "axis-scale")
  \cup If(Rescaled(o.offset, units) = Offset(d), "axis-offset")
BadSignal(c, o) ==
  LET nv == Nav(c)  sa == SigAxes(c) IN
  If(o.shape = Shape(c), "shape")
  \cup If(o.flat = WantFlat(c), "values")
  \cup If(o.dtype = c.dtype, "dtype")
  \cup (IF Len(o.axes) # Len(nv) + Len(sa) THEN {"number-of-axes"} ELSE
     UNION {BadAxis(o.axes[i], nv[i].size, Names(nv, Sub(<<"x", "y">>, 1, Len(c.dims)))[i], nv[i].units, nv[i], TRUE)
              : i \in 1..Len(nv)}
     \cup UNION {BadAxis(o.axes[Len(nv)+i], sa[i].size, sa[i].name, sa[i].units, sa[i].d, FALSE)
              : i \in 1..Len(sa)})
  \cup If(o.om_valid = c.valid, "original-metadata")
Bad(s, e) ==
  IF e.ev = "ser" THEN
    IF e.c.valid = 0 THEN If(IsErr(e.obs) /\ e.obs.err = "OSError", "must-reject")
    ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
    ELSE IF Len(e.obs.sigs) # 1 THEN {"number-of-signals"}
    ELSE BadSignal(e.c, e.obs.sigs[1])
  ELSE IF e.ev = "emi" THEN
    IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
    ELSE LET good == SelectSeq(e.cs, LAMBDA c: c.valid > 0) IN
      IF Len(e.obs.sigs) # Len(good) THEN {"number-of-signals"}
      ELSE UNION {BadSignal(good[i], e.obs.sigs[i])
                  \cup If(e.obs.sigs[i].uuid = good[i].uuid, "object-of-signal")
                  \cup If(e.obs.sigs[i].stage = good[i].stage, "experiment-metadata")
                  \cup If(e.obs.sigs[i].date = e.date, "date") : i \in 1..Len(good)}
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err} ELSE {}
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
