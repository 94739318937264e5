------------------------------- MODULE Formats -------------------------------
(* What each file format keeps of a signal that is written to it and read    *)
(* back.  A signal is [shape, flat, dtype, axes, title, date, time, stype,   *)
(* beam, tilt, live]; axes are [name, units, size, scale, offset, navigate]. *)
(* The operators give, for every writer of RosettaSciIO, whether it accepts  *)
(* the signal and what has to come back: the shared part is that the values, *)
(* their order, the shape and the type of the data are kept, and that        *)
(* everything the format has a place for comes back as it was given.         *)
EXTENDS VF
Null == "null"
Big == 0 - 2147483647
Navs(x) == SelectSeq(x.axes, LAMBDA a : a.navigate)
Sigs(x) == SelectSeq(x.axes, LAMBDA a : ~a.navigate)
\* ---- what formats do to a signal
\* dimensions of length one are dropped
Squeeze(x) ==
  LET keep == SelectSeq([i \in 1..Len(x.shape) |-> i], LAMBDA i : x.shape[i] # 1) IN
  [x EXCEPT !.shape = [i \in 1..Len(keep) |-> x.shape[keep[i]]], !.axes = [i \in 1..Len(keep) |-> x.axes[keep[i]]]]
\* dimensions of length one among the first n
SqueezeFirst(x, n) ==
  LET keep == SelectSeq([i \in 1..Len(x.shape) |-> i], LAMBDA i : i > n \/ x.shape[i] # 1) IN
  [x EXCEPT !.shape = [i \in 1..Len(keep) |-> x.shape[keep[i]]], !.axes = [i \in 1..Len(keep) |-> x.axes[keep[i]]]]
Axes(x, f(_, _)) == [x EXCEPT !.axes = [i \in 1..Len(x.axes) |-> f(i, x.axes[i])]]
NoUnits(x, u) == Axes(x, LAMBDA i, a : IF a.units = Null THEN [a EXCEPT !.units = u] ELSE a)
NoNav(x) == Axes(x, LAMBDA i, a : [a EXCEPT !.navigate = FALSE])
Uncalibrated(x, u) == Axes(x, LAMBDA i, a : [a EXCEPT !.units = u, !.scale = 1024, !.offset = 0])
NoOffset(x) == Axes(x, LAMBDA i, a : [a EXCEPT !.offset = 0])
\* names for the last dimensions
Named(x, names) == Axes(x, LAMBDA i, a : [a EXCEPT !.name = names[Len(names) - Len(x.axes) + i]])
Units(x, us) == Axes(x, LAMBDA i, a : [a EXCEPT !.units = us[Len(us) - Len(x.axes) + i]])
NoTitle(x) == [x EXCEPT !.title = Null]
EmptyTitle(x) == IF x.title = "" THEN NoTitle(x) ELSE x
NoDate(x) == [x EXCEPT !.date = Null, !.time = Null]
Undated(x) == [x EXCEPT !.date = IF x.date = Null THEN "" ELSE x.date, !.time = IF x.time = Null THEN "" ELSE x.time]
NoType(x) == [x EXCEPT !.stype = Null]
NoMeta(x) == [x EXCEPT !.beam = 0 - 1, !.tilt = 0 - 1, !.live = 0 - 1]
Bare(x) == NoMeta(NoType(NoDate(NoTitle(x))))
Dtype(x, d) == [x EXCEPT !.dtype = d]
Free(x, keys) == [k \in DOMAIN x \ keys |-> x[k]]
FreeAxes(x, keys) == [x EXCEPT !.axes = [i \in 1..Len(x.axes) |-> [k \in DOMAIN x.axes[i] \ keys |-> x.axes[i][k]]]]
Rejected == [rejected |-> TRUE]
Unspecified == [unspecified |-> TRUE]
\* ---- blockfile: diffraction patterns of 8-bit on a grid, nm and cm
Blockfile(x, o) ==
  LET s == Sigs(x)  n == Navs(x)
      sx == Len(x.shape)
      y0 == [x EXCEPT !.axes =
               [i \in 1..Len(x.axes) |->
                 LET a == x.axes[i]
                     \* patterns: the same for both axes
                     sc == IF a.navigate THEN a.scale ELSE x.axes[sx].scale
                     b == IF a.navigate /\ a.units = "µm" THEN [k \in DOMAIN a \ {"scale"} |-> IF k = "scalem" THEN a.scalem * 1000 ELSE a[k]]
                          ELSE [a EXCEPT !.scale = sc]
                 IN [b EXCEPT !.offset = 0, !.units = IF a.navigate THEN "nm" ELSE "cm"]]]
      y == Named(y0, <<"y", "x", "dy", "dx">>)
      v == IF o.scaling = "" THEN y.flat
           ELSE IF o.scaling = "crop" \/ o.scaling = "range" THEN
             \* 0..top is mapped to 0..255
             [i \in 1..Len(y.flat) |-> (Min2(Max2(y.flat[i], 0), 64 * o.top) * 255) \div o.top]
           ELSE \* minmax
             LET lo == Min(Range(y.flat))  hi == Max(Range(y.flat)) IN
             [i \in 1..Len(y.flat) |-> IF hi = lo THEN Big ELSE (((y.flat[i] - lo) * 255) \div (hi - lo)) * 64]
      z == [Squeeze([y EXCEPT !.flat = v, !.dtype = "uint8", !.date = "1970-01-02", !.time = "00:00:00", !.stype = "diffraction"])
              EXCEPT !.title = Null]
  IN IF Len(s) # 2 \/ Len(x.shape) > 4 THEN Unspecified ELSE IF s[1].size # s[2].size THEN Rejected
     ELSE IF o.scaling = "minmax" /\ Min(Range(y.flat)) = Max(Range(y.flat)) THEN Free(NoMeta(z), {"flat"})
     ELSE NoMeta(z)
\* ---- NCEM EMD
Emd(x, o) == LET y == NoMeta(NoDate(NoUnits(NoNav(x), ""))) IN
  [y EXCEPT !.title = IF @ = "" THEN "__unnamed__" ELSE @, !.stype = ""]
\* ---- EMSA/MSA: one spectrum as text
MsaTypes == ("EELS" :> "EELS") @@ ("EDS_TEM" :> "EDS_TEM") @@ ("" :> "") @@ ("diffraction" :> "")
Msa(x, o) ==
  IF Len(x.shape) # 1 THEN Unspecified ELSE
  [EmptyTitle(Axes(Dtype(x, "float64"), LAMBDA i, a : [a EXCEPT !.units = IF @ = Null THEN "" ELSE @])) EXCEPT !.stype = MsaTypes[x.stype], !.time = IF @ = Null THEN Null ELSE SubSeq(@, 1, 5) \o ":00"]
\* ---- ripple
RippleTypes == {"float64", "float32", "uint8", "uint16", "int32", "int64"}
Ripple(x, o) ==
  LET y == Squeeze(Undated(x))  vector == Len(Sigs(x)) = 1
      depth == IF vector THEN Sigs(x)[1].size ELSE IF Len(Navs(x)) = 1 THEN Navs(x)[1].size ELSE 1
      z == IF x.stype = "EDS_TEM" THEN y ELSE IF x.stype = "EELS" THEN [y EXCEPT !.tilt = 0 - 1, !.live = 0 - 1] ELSE NoMeta(y)
  IN IF x.dtype \notin RippleTypes \/ Len(x.shape) > 3 THEN Rejected
     \* (nothing is written)
     ELSE IF Len(Sigs(x)) \notin 1..2 THEN Unspecified
     ELSE IF y.shape = <<>> THEN Unspecified
     \* the reader refuses them (known)
     ELSE IF depth = 1 /\ (vector \/ Len(Navs(x)) = 1) THEN [knownerror |-> "ripple-depth1"]
     ELSE IF Len(y.shape) < Len(x.shape) /\ ~vector THEN FreeAxes(z, {"navigate"}) ELSE z
\* ---- mrcz: stacks of images
Mrcz(x, o) ==
  IF \E n \in Range(x.shape) : n = 1 THEN Unspecified
  ELSE FreeAxes(Free(Dtype(Named(Units(NoOffset(x), <<"nm", "nm", "nm">>), <<"z", "y", "x">>),
                IF x.dtype = "float64" THEN "float32" ELSE x.dtype), {"beam", "tilt", "live"}), {})
\* ---- tiff: images and stacks
Tiff(x, o) ==
  LET \* (without the ImageJ description, the shape is kept)
      y == [(IF o.noscale THEN Bare(x) ELSE SqueezeFirst(Bare(x), Len(x.shape) - 2)) EXCEPT !.stype = "", !.date = x.date, !.time = x.time, !.extra = o.extra]
      z == NoUnits(Named(y, <<"null", "height", "width">>), "")
      w == Axes(z, LAMBDA i, a : [a EXCEPT !.scale = 1024, !.offset = 0, !.units = Null])
  IN IF o.noscale THEN FreeAxes(w, {"name", "navigate"})
     ELSE [z EXCEPT !.axes = [i \in 1..Len(z.axes) |-> IF i + 2 > Len(z.axes) THEN z.axes[i]
                                ELSE [j \in DOMAIN z.axes[i] \ {"name", "navigate"} |-> z.axes[i][j]]]]
\* ---- tvips: a sequence of images
Tvips(x, o) ==
  IF Len(Sigs(x)) # 2 THEN Unspecified ELSE
  LET n == ProdSeq([i \in 1..Len(Navs(x)) |-> Navs(x)[i].size])
      k == Len(x.shape)
      s == Sigs(x)
      mode == IF o.mode # 0 THEN o.mode ELSE IF s[1].units = "nm" THEN 1 ELSE 2
      u == IF mode = 2 THEN "1/nm" ELSE "nm"
      ax(a, name) == [a EXCEPT !.name = name, !.units = u]
      \* time between images in ms
      nv == Navs(x)
      inc == IF Len(nv) = 0 THEN 1000 ELSE IF nv[Len(nv)].units = "s" THEN nv[Len(nv)].scalem
             ELSE IF nv[Len(nv)].units = "ms" THEN nv[Len(nv)].scalem \div 1000 ELSE 1
      t == [name |-> "time", units |-> "s", size |-> n, navigate |-> TRUE, scalem |-> IF n = 1 THEN 1000 ELSE inc]
  IN [shape |-> <<n, x.shape[k - 1], x.shape[k]>>, flat |-> x.flat, dtype |-> x.dtype,
      axes |-> <<t, ax(s[1], "dy"), ax(s[2], "dx")>>,
      title |-> Null, date |-> IF x.date = Null THEN "1970-01-01" ELSE x.date,
      time |-> IF x.time = Null THEN "00:00:00" ELSE x.time,
      stype |-> IF mode = 2 THEN "diffraction" ELSE Null,
      beam |-> IF x.beam < 0 THEN 0 ELSE x.beam, tilt |-> IF x.tilt < 0 THEN 0 ELSE x.tilt]
\* ---- Panta Rhei: dimensions of length one of the navigation are dropped
Pantarhei(x, o) ==
  LET n == Len(x.shape)
      oneD == Len(Sigs(x)) = 1
      idx(i) == IF oneD THEN i < n ELSE i <= n - 2
      keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : x.shape[i] # 1 \/ ~idx(i))
      d == IF x.date # Null /\ x.time # Null THEN x ELSE NoDate(x)
      y == [Free(EmptyTitle(d), {"beam", "tilt", "live"}) EXCEPT
              !.shape = [i \in 1..Len(keep) |-> x.shape[keep[i]]],
              !.axes = [i \in 1..Len(keep) |-> [k \in DOMAIN x.axes[1] \ {"name"} |-> x.axes[keep[i]][k]]],
              !.stype = IF x.stype = "EELS" /\ oneD THEN "EELS" ELSE Null]
  IN y
\* axes that Panta Rhei knows
Scans == {"Energy", "Energy loss", "ScanX", "ScanY"}
\* ---- NeXus
Nexus(x, o) ==
  LET y == Axes(NoUnits(NoDate(x), ""), LAMBDA i, a : IF a.size = 1 THEN [a EXCEPT !.scale = 1024] ELSE a) IN
  Free([y EXCEPT !.title = IF @ = "" THEN "unnamed__0" ELSE @], {"beam", "tilt", "live"})
\* ---- numpy: the data only
Numpy(x, o) == IF x.shape = <<>> THEN Unspecified ELSE LET y == Uncalibrated(NoNav(Squeeze(Bare(x))), "") IN Axes(y, LAMBDA i, a : [a EXCEPT !.name = ""])
\* ---- pictures
Image(x, o) ==
  [Named(Uncalibrated(NoNav(Bare(x)), Null), <<"y", "x">>) EXCEPT !.stype = ""]
\* ---- digital surf: integers of 16 and 32 bits
Surf(x, o) ==
  LET nv == Len(Navs(x))  sg == Len(Sigs(x))
      y == NoUnits(Undated(NoMeta(NoTitle(x))), "")
      z == [y EXCEPT !.stype = "", !.dtype = IF (sg = 2 \/ (sg = 0 /\ nv = 2)) /\ x.dtype # "float64" THEN (IF x.dtype \in {"bool", "uint8"} THEN "int16" ELSE x.dtype) ELSE "float64"]
  IN IF x.dtype \in {"rgb", "int64", "uint64"} \/ Len(x.shape) > 3 \/ (\E n \in Range(x.shape) : n = 1) THEN Unspecified
     ELSE IF sg = 0 THEN FreeAxes(z, {"navigate"}) ELSE z
\* ---- semper
SemperTypes == ("int8" :> "int8") @@ ("int16" :> "int16") @@ ("int32" :> "int32") @@ ("float32" :> "float32") @@ ("float16" :> "float32")
               @@ ("complex64" :> "complex64")
Semper(x, o) ==
  IF x.dtype \notin DOMAIN SemperTypes THEN Rejected ELSE
  LET y == Squeeze(NoUnits(NoNav(NoMeta(NoType(x))), ""))
      z == Axes([y EXCEPT !.dtype = SemperTypes[x.dtype]], LAMBDA i, a : [a EXCEPT !.name = <<"x", "y", "z">>[i]])
  IN IF x.date = Null \/ x.time = Null THEN Free(z, {"date", "time"}) ELSE z
\* times are kept to the second
Seconds(x) == [x EXCEPT !.time = IF @ = Null \/ Len(@) < 8 THEN @ ELSE SubSeq(@, 1, 8)]
Expected(fmt, x0, o) ==
  LET x == IF fmt \in {"tiff", "tvips", "digitalsurf", "semper"} THEN Seconds(x0) ELSE x0 IN
  CASE fmt = "blockfile" -> Blockfile(x, o) [] fmt = "emd" -> Emd(x, o) [] fmt = "msa" -> Msa(x, o)
    [] fmt = "ripple" -> Ripple(x, o) [] fmt = "mrcz" -> Mrcz(x, o) [] fmt = "tiff" -> Tiff(x, o)
    [] fmt = "tvips" -> Tvips(x, o) [] fmt = "pantarhei" -> Pantarhei(x, o) [] fmt = "nexus" -> Nexus(x, o)
    [] fmt = "numpy" -> Numpy(x, o) [] fmt = "image" -> Image(x, o) [] fmt = "digitalsurf" -> Surf(x, o)
    [] fmt = "semper" -> Semper(x, o)
\* ---- known deviations from this (known_findings.jsonl)
Known(fmt, x, d) ==
  IF fmt = "pantarhei" THEN
    IF \E a \in Range(x.axes) : a.name \in Scans THEN (IF d = {} THEN {} ELSE {"known-axes"})
    ELSE {IF k \in {"axis-scale", "axis-offset", "axis-units"} THEN "calibration" ELSE k : k \in d}
  ELSE d
\* ---- comparing
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] \in (0 - tol)..tol
\* (scales in thousandths where they are not a multiple of 1/1024)
AxDiff(i, w, g) == UNION {If(g[k] = w[k], "axis-" \o k) : k \in DOMAIN w \ (IF "scale" \in DOMAIN w THEN {"scalem"} ELSE {})}
Same(w, g, tol) ==
  UNION {If(g[k] = w[k], k) : k \in DOMAIN w \ ({"axes", "flat", "lazy"} \cup (IF Has(w, "extra") THEN (IF w.extra = Null THEN {"extra"} ELSE {}) ELSE {}))}
  \cup (IF "flat" \in DOMAIN w THEN If(IF tol = 0 THEN g.flat = w.flat ELSE Near(g.flat, w.flat, tol), "values") ELSE {})
  \cup (IF "axes" \notin DOMAIN w THEN {}
        ELSE IF Len(w.axes) # Len(g.axes) THEN {"number-of-axes"}
        ELSE UNION {AxDiff(i, w.axes[i], g.axes[i]) : i \in 1..Len(w.axes)})
=============================================================================
