--------------------------- MODULE TvipsSeriesTrace ---------------------------
(* Judges what rsciio returned for made TVIPS series.                         *)
EXTENDS TvipsSeries
VARIABLES l, st, fails
Init0 == 0
Case(e) == [n |-> FramesOf(e.counts, {e.present[i] : i \in 1..Len(e.present)}), shape |-> e.shape, auto |-> e.auto,
            start |-> e.start, wind |-> e.wind, lag |-> e.lag, rot |-> Sub(e.rot, 1, FramesOf(e.counts, {e.present[i] : i \in 1..Len(e.present)}))]
Px(e, f, k) == (e.base + (f * e.h * e.w) + k) % (IF e.bits = 8 THEN 256 ELSE 65536)
WantFlat(e, fs) == FlattenSeq([i \in 1..Len(fs) |-> [k \in 1..(e.h * e.w) |-> Px(e, fs[i], k - 1)]])
Unit(e) == IF e.mode = 2 THEN "1/nm" ELSE "nm"
Blank(n) == [i \in 1..Max2(0, n) |-> ""]
LastOf(s, n) == Sub(s, Len(s) - n + 1, Len(s))
Bad(s, e) ==
  LET c == Case(e) IN
  IF ~e.goodname \/ Refused(c)
  THEN If(IsErr(e.obs) /\ e.obs.err = "ValueError", "not-refused")
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE
    LET o == e.obs
        nav == NavShape(c)
        fs == Frames(c)
        scan == c.auto \/ Len(c.shape) > 0
        nd == Len(nav) + 2
        names == IF scan THEN LastOf(Blank(nd - 4) \o <<"y", "x", "dy", "dx">>, nd) ELSE <<"time", "dy", "dx">>
        units == IF scan THEN LastOf(Blank(nd - 4) \o <<"nm", "nm", Unit(e), Unit(e)>>, nd) ELSE <<"s", Unit(e), Unit(e)>>
        \* thousandths
        scales == [i \in 1..nd |-> IF i > nd - 2 THEN e.pixel * 1000
                   ELSE IF scan \/ c.n < 2 THEN 1000 ELSE e.times[2] - e.times[1]]
        offs == [i \in 1..nd |-> IF i = nd THEN e.offx * 1000 ELSE IF i = nd - 1 THEN e.offy * 1000
                 ELSE IF scan THEN 0 ELSE e.times[1]] IN
    If(o.shape = nav \o <<e.h, e.w>>, "shape")
    \cup If(o.flat = WantFlat(e, fs), "frames")
    \cup If(o.dtype = e.dtype, "dtype")
    \cup If([i \in 1..Len(o.axes) |-> o.axes[i].size] = o.shape, "axis-sizes")
    \cup If([i \in 1..Len(o.axes) |-> o.axes[i].name] = names, "axis-names")
    \cup If([i \in 1..Len(o.axes) |-> o.axes[i].units] = units, "axis-units")
    \cup If([i \in 1..Len(o.axes) |-> o.axes[i].scale] = scales, "axis-scales")
    \cup If([i \in 1..Len(o.axes) |-> o.axes[i].off] = offs, "axis-offsets")
    \cup If([i \in 1..Len(o.axes) |-> o.axes[i].nav] = [i \in 1..nd |-> i <= nd - 2], "axis-roles")
    \cup If(o.md = e.md, "metadata")
    \cup If(o.head = e.head, "header")
    \cup (IF ~e.lazy THEN {}
          ELSE IF e.rechunk = "no" /\ ~scan THEN If(o.chunks[1] = Sub(e.counts, 1, Parts({e.present[i] : i \in 1..Len(e.present)})), "a-chunk-a-file")
          ELSE IF e.rechunk = "auto" THEN If(Len(o.chunks[nd]) = 1 /\ Len(o.chunks[nd-1]) = 1, "signal-chunks")
          ELSE {})
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
