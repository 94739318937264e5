------------------------------ MODULE LabMapsTrace ------------------------------
(* Judges what rsciio returned for made EDAX, EMPAD and EELSLab files.          *)
EXTENDS LabMaps
VARIABLES l, st, fails
Init0 == 0
SetOf(s) == {s[i] : i \in 1..Len(s)}
Ax(n, name, scale, off, units, nav) == [size |-> n, name |-> name, scale |-> scale, off |-> off, units |-> units, nav |-> nav]
Val(e, k) == (e.base + k) % e.mod
BadEdax(e) ==
  LET o == e.obs
      lsd == e.ext = "lsd"
      one == e.ext = "spc"
      words == IF one THEN [c \in 1..e.nz |-> c - 1] ELSE IF lsd THEN EdaxLine(e.ny, e.nx, e.ns, e.nz) ELSE EdaxMap(e.ny, e.nx, e.nz)
      n1 == Min2(e.ns, e.ny * e.nx)
      shape == IF one THEN <<e.nz>> ELSE IF lsd THEN <<n1, e.nz>> ELSE <<e.ny, e.nx, e.nz>>
      en == IF e.spc THEN Ax(e.nz, "Energy", e.evpch, e.start, "keV", FALSE) ELSE [o.axes[Len(o.axes)] EXCEPT !.size = e.nz, !.name = "Energy", !.scale = 1000, !.units = "-", !.nav = FALSE]
      axes == IF one THEN <<en>>
              ELSE IF lsd THEN <<IF e.csv THEN Ax(n1, "x", e.dstep, e.dstart, "nm", TRUE) ELSE Ax(n1, "x", 1000, 0, "-", TRUE), en>>
              ELSE <<IF e.ipr THEN Ax(e.ny, "y", e.mppy, 0, "µm", TRUE) ELSE Ax(e.ny, "y", 1000, 0, "-", TRUE),
                     IF e.ipr THEN Ax(e.nx, "x", e.mppx, 0, "µm", TRUE) ELSE Ax(e.nx, "x", 1000, 0, "-", TRUE), en>> IN
  If(o.shape = shape, "shape")
  \cup If(o.flat = [i \in 1..Len(words) |-> Val(e, words[i])], "counts")
  \cup If(o.dtype = e.dtype, "dtype")
  \cup If(Len(o.axes) = Len(axes), "axes")
  \cup (IF Len(o.axes) /= Len(axes) THEN {} ELSE UNION {
       If(o.axes[i].size = axes[i].size, "axis-size") \cup If(o.axes[i].name = axes[i].name, "axis-name")
       \cup If(o.axes[i].scale = axes[i].scale, "axis-scale") \cup If(o.axes[i].off = axes[i].off, "axis-offset")
       \cup If(o.axes[i].units = axes[i].units, "axis-units") \cup If(o.axes[i].nav = axes[i].nav, "axis-role") : i \in 1..Len(axes)})
  \cup If(o.md = e.md, "metadata")
  \cup If(o.head = e.head, "headers")
\* lengths in pm
BadEmpad(e) ==
  IF e.bad THEN If(IsErr(e.obs) /\ e.obs.err \in {"OSError", "KeyError"}, "not-refused")
  ELSE
  LET o == e.obs
      nav == IF e.series THEN <<e.n>> ELSE <<e.sy, e.sx>>
      names == (IF e.series THEN <<"series_count">> ELSE <<"scan_y", "scan_x">>) \o <<"height", "width">>
      sizes == nav \o <<128, 128>>
      k == Len(nav)
      scale == [i \in 1..Len(sizes) |-> IF i > k THEN e.q ELSE IF e.series \/ e.fov = 0 THEN 1000
                 ELSE IF e.old THEN e.fov \div sizes[i] ELSE e.fov \div Max2(e.sx, e.sy)]
      units == [i \in 1..Len(sizes) |-> IF i > k THEN e.qunits ELSE IF e.series THEN "ms" ELSE IF e.fov = 0 THEN "" ELSE "pm"] IN
  If(o.shape = Long(sizes), "shape")
  \cup If(o.frames = [i \in 1..ProdSeq(nav) |-> i - 1], "frames")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].size] = Long(sizes), "axis-size")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].name] = LongOf(sizes, names), "axis-name")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].scale] = LongOf(sizes, scale), "axis-scale")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].off] = LongOf(sizes, [i \in 1..Len(sizes) |-> IF i > k THEN -64 * e.q ELSE 0]), "axis-offset")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].units] = LongOf(sizes, units), "axis-units")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].nav] = LongOf(sizes, [i \in 1..Len(sizes) |-> i <= k]), "axis-role")
  \cup If(o.md = e.md, "metadata")
BadNc(e) ==
  IF e.bad THEN If(IsErr(e.obs) /\ e.obs.err = "OSError", "not-refused")
  ELSE
  LET o == e.obs
      nd == Len(e.vs)
      sh == Reverse(e.vs)
      from == 3 - nd
      image == e.rec = "image"
      names == Sub(IF image THEN <<"Z", "Y", "X">> ELSE <<"Y", "X", "Energy">>, from + 1, 3)
      nav == Sub(IF image THEN <<TRUE, FALSE, FALSE>> ELSE <<TRUE, TRUE, FALSE>>, from + 1, 3) IN
  If(o.shape = sh, "shape")
  \cup If(o.flat = [k \in 1..ProdSeq(e.vs) |-> Val(e, Fortran(e.vs)[k])], "numbers")
  \cup If(o.dtype = e.dtype, "dtype")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].size] = sh, "axis-size")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].name] = names, "axis-name")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].nav] = nav, "axis-role")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].scale] = [i \in 1..nd |-> IF e.hasscale THEN e.scales[i] ELSE 1000], "axis-scale")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].off] = [i \in 1..nd |-> IF e.hasorigin THEN e.origins[i] ELSE 0], "axis-offset")
  \cup If([i \in 1..Len(o.axes) |-> o.axes[i].units] = [i \in 1..nd |-> IF e.hasunits THEN e.units[i] ELSE ""], "axis-units")
  \cup If(o.md = e.md, "metadata")
Bad(s, e) ==
  CASE e.fmt = "empad" /\ e.bad -> BadEmpad(e)
    [] e.fmt = "nc" /\ e.bad -> BadNc(e)
    [] IsErr(e.obs) -> {"error-" \o e.obs.err}
    [] e.fmt = "edax" -> BadEdax(e)
    [] e.fmt = "empad" -> BadEmpad(e)
    [] OTHER -> BadNc(e)
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
