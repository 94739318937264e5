---------------------------- MODULE MibFramesTrace ----------------------------
(* Judges file_reader and load_mib_data on crafted .mib files.                *)
EXTENDS MibFrames
VARIABLES l, st, fails
Init0 == 0
\* the scan shape asked for, given by the .hdr file, or guessed
Nav(e) ==
  IF Len(e.nav) > 0 THEN e.nav
  ELSE IF e.api # "file_reader" THEN <<>>
  ELSE LET total == IF e.hdr THEN e.hdrframes ELSE e.n
           fpt == IF e.hdr /\ e.hdrfpt # 1 THEN e.hdrfpt ELSE LineLength(e.times) IN
       IF total = 0 THEN <<>> ELSE <<fpt, total \div fpt>>
Pixel(e, f, r, c) == e.base + f * (e.h * e.w) + r * e.w + c
\* images are returned upside down with respect to the file (file_reader)
WantFlat(e, fs) ==
  FlattenSeq([i \in 1..Len(fs) |->
    [p \in 1..(e.h * e.w) |->
       LET r == (p - 1) \div e.w  c == (p - 1) % e.w IN
       Pixel(e, fs[i], IF e.api = "file_reader" THEN e.h - 1 - r ELSE r, c)]])
\* exposures and time stamps are asked for up to a number of frames
Asked(e, fs) == IF e.mi < 0 THEN Len(fs) ELSE Min2(e.mi, Len(fs))
Bad(s, e) ==
  IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE LET nav == Nav(e)
           a == Arrange(e.n, nav, e.first, e.last)
           fs == FramesRead(e.n, nav, e.first, e.last)
           o == e.obs IN
    If(o.shape = (IF e.squeezed THEN Squeeze(a) ELSE a) \o <<e.h, e.w>>, "shape")
    \cup If(o.flat = WantFlat(e, fs), "frames")
    \cup If(o.dtype = e.dtype, "dtype")
    \cup (IF e.api # "file_reader" THEN {} ELSE
      If(o.axes = o.shape, "axis-sizes")
      \cup If(o.cal, "calibration")
      \cup If(o.nav = [i \in 1..Len(o.shape) |-> i <= Len(o.shape) - 2], "axis-roles")
      \cup If(o.dwell = e.exposure, "dwell-time")
      \cup If(o.date = e.date, "date")
      \cup If(o.hdr = e.hdrkeys, "hdr-metadata"))
    \cup (IF Len(o.ids) = 0 THEN {} ELSE
      If(o.ids = [i \in 1..Len(fs) |-> fs[i] + 1], "headers")
      \cup If(o.exps = [i \in 1..Asked(e, fs) |-> e.exposure + fs[i]], "exposures")
      \cup If(o.stamps = [i \in 1..Asked(e, fs) |-> e.times[fs[i] + 1]], "timestamps"))
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
