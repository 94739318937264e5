----------------------------- MODULE DmTagsTrace -----------------------------
(* Judges what rsciio returned for crafted DM3/DM4 files. *)
EXTENDS DmTags
VARIABLES l, st, fails
Init0 == 0
Prefixed(p, items) == {[p |-> p \o x.p, v |-> x.v] : x \in items}
Str(v) == IF v = "l()" THEN "s:" ELSE v
Dtype(dt) == CASE dt = 1 -> "int16" [] dt = 2 -> "float32" [] dt = 3 -> "complex64" [] dt = 5 -> "complex64" [] dt = 6 -> "uint8" [] dt = 7 -> "int32"
  [] dt = 8 -> "rgba" [] dt = 9 -> "int8" [] dt = 10 -> "uint16" [] dt = 11 -> "uint32" [] dt = 12 -> "float64"
  [] dt = 13 -> "complex128" [] dt = 14 -> "bool" [] dt = 23 -> "rgba" [] dt = 27 -> "complex64" [] dt = 28 -> "complex128"
V(m, k) == (m.base + k) % 60
\* element k of the file as observed
Elem(m, k, conj) ==
  IF m.dt \in {3, 13, 27, 28} THEN V(m, k) * 1000 + (IF conj THEN -(V(m, k) + 1) ELSE V(m, k) + 1)
  ELSE IF m.dt = 14 THEN V(m, k) % 2
  ELSE IF m.dt \in {8, 23} THEN ((V(m, k) + 2) % 60) + 64 * ((V(m, k) + 1) % 60) + 4096 * V(m, k) + 262144 * ((V(m, k) + 3) % 60)
  ELSE V(m, k)
\* index along axis a of the element at row-major position p
RECURSIVE Strides(_)
Strides(s) == IF Len(s) = 0 THEN <<>> ELSE <<ProdSeq(Tail(s))>> \o Strides(Tail(s))
MultiIdx(s, p) == [a \in 1..Len(s) |-> (p \div Strides(s)[a]) % s[a]]
RECURSIVE FPos(_, _)
FPos(s, ix) == IF Len(s) = 0 THEN 0 ELSE ix[1] + s[1] * FPos(Tail(s), Tail(ix))
\* old packed complex of a 2N x 2N image: half of the plane, the rest by symmetry (re * 1000 + im)
P5(m, k) == V(m, k) * 1000 + V(m, k + 1)
Half(m, N, i, j) == \* -1 if not stored
  IF i = N /\ j = 0 THEN V(m, 0) * 1000
  ELSE IF i = 0 /\ j = 0 THEN V(m, 1) * 1000
  ELSE IF i = N /\ j = N THEN V(m, 2 * N * N) * 1000
  ELSE IF i = 0 /\ j = N THEN V(m, 2 * N * N + 1) * 1000
  ELSE IF i < N /\ j > N THEN P5(m, 2 * i * N + 2 + 2 * (j - N - 1))
  ELSE IF i > N /\ j = 0 THEN P5(m, 2 * N * (i - N))
  ELSE IF i = N /\ j > N THEN P5(m, 2 * N * N + 2 * (j - N))
  ELSE IF i > N /\ j >= N THEN P5(m, 2 * N * N + 2 * N + 2 * ((i - N - 1) * N + (j - N)))
  ELSE -1
Conj(x) == LET im == x % 1000 IN x - 2 * im
Plane(m, N, i, j) ==
  IF Half(m, N, i, j) # -1 THEN Half(m, N, i, j)
  ELSE Conj(Half(m, N, (2 * N - i) % (2 * N), (2 * N - j) % (2 * N)))
Elems(m, s, order) ==
  IF m.dt = 5 THEN [q \in 1..(s[1] * s[1]) |-> Plane(m, s[1] \div 2, (q - 1) \div s[1], (q - 1) % s[1])] ELSE
  IF m.dt \in {27, 28} THEN
    LET w == s[2]  p == (w \div 2) + 1 IN
    [q \in 1..(s[1] * w) |->
       LET r == (q - 1) \div w  c == (q - 1) % w IN
       IF c < p THEN Elem(m, r * p + (p - 1 - c), FALSE) ELSE Elem(m, r * p + (c - p + 1), TRUE)]
  ELSE [q \in 1..ProdSeq(s) |-> Elem(m, IF order = "F" THEN FPos(s, MultiIdx(s, q - 1)) ELSE q - 1, FALSE)]
\* axes
BadImage(e, all, sub, m, o) ==
  LET it == Machine(sub)
      dimn == Descend(sub, <<"ImageData", "Dimensions">>)
      shape == Reverse([i \in 1..Len(dimn) |-> dimn[i].n])
      nd == Len(shape)
      cal == Groups(Descend(sub, <<"ImageData", "Calibrations", "Dimension">>))
      ncal == Len(cal)
      \* calibration of axis i of the array (the file lists the last one first)
      c(i) == nd - i
      Sc(i) == IF c(i) < ncal THEN NodeOf(cal[c(i) + 1], <<"Scale">>).n ELSE 8
      Or(i) == IF c(i) < ncal THEN NodeOf(cal[c(i) + 1], <<"Origin">>).n ELSE 0
      Un(i) == IF c(i) < ncal THEN Str(ItemAt(cal[c(i) + 1], <<"Units">>, "s:")) ELSE "s:"
      units == [i \in 1..nd |-> Un(i)]
      mds == ItemAt(sub, <<"ImageTags", "Meta Data", "Signal">>, "s:")
      signal == IF mds = "s:X-ray" THEN "EDS_TEM"
                ELSE IF mds = "s:CL" \/ HasItem(sub, <<"ImageTags", "Acquisition", "Monarc Spectrometer">>) THEN "CL"
                ELSE IF mds = "s:EELS" \/ HasItem(sub, <<"ImageTags", "spim", "eels">>) THEN "EELS" ELSE ""
      fmt == ItemAt(sub, <<"ImageTags", "Meta Data", "Format">>, "s:")
      spim == HasItem(sub, <<"ImageTags", "spim">>)
      spectrum == IF nd = 1 THEN TRUE ELSE nd = 2 /\ (fmt \in {"s:Spectrum image", "s:Spectrum"} \/ spim)
      nav(i) == IF spectrum THEN i < nd ELSE i < nd - 1
      toSpectrum == nd > 2 /\ (fmt = "s:Spectrum image" \/ spim)
      special == IF signal = "EELS" THEN <<"s:eV", "Energy loss">>
                 ELSE IF signal = "CL" THEN <<"s:nm", "Wavelength">> ELSE <<"none", "">>
      sp == IF special[1] \in Range(units) THEN CHOOSE i \in 1..nd : units[i] = special[1] /\ \A j \in 1..(i-1) : units[j] # special[1] ELSE 0
      \* x, y, z: from the last axis that is not the special one
      others == SelectSeq([i \in 1..nd |-> i], LAMBDA i: i # sp)
      rank(i) == Cardinality({j \in Range(others) : j >= i})
      name(i) == IF i = sp THEN special[2] ELSE IF rank(i) <= 3 THEN <<"x", "y", "z">>[rank(i)] ELSE "null"
      rest == {x \in all : x.p[1] # "ImageList"} IN
  If(o.shape = shape, "shape")
  \cup If(o.dtype = Dtype(m.dt), "dtype")
  \cup If(o.elems = Elems(m, shape, e.order), "values")
  \cup If(("s:" \o o.title) = Str(ItemAt(sub, <<"Name">>, "s:")), "title")
  \cup If(o.signal = signal, "signal-type")
  \cup If(o.filename = e.name, "filename")
  \cup If(o.to_spectrum = (IF toSpectrum THEN 2 ELSE 1), "spectrum-image")
  \cup (IF Len(o.axes) # nd THEN {"number-of-axes"} ELSE UNION {
       If(o.axes[i].size = shape[i] /\ o.axes[i].index = i - 1, "axis-size")
       \cup If(o.axes[i].navigate = nav(i), "axis-role")
       \cup If(o.axes[i].scale8 = Sc(i), "axis-scale")
       \cup If(o.axes[i].offset64 = -(Or(i) * Sc(i)), "axis-offset")
       \cup If(("s:" \o o.axes[i].units) = Un(i), "axis-units")
       \cup If(o.axes[i].name = name(i), "axis-name") : i \in 1..nd})
  \cup If(Len(o.om) = Cardinality(Range(o.om)), "tag-twice")
  \cup LET want == Prefixed(<<"ImageList", "TagGroup0">>, it) \cup rest \cup {[p |-> <<"root">>, v |-> "{}"]}
           got == {[p |-> x.p, v |-> x.v] : x \in Range(o.om)} IN
       If(want \subseteq got, "tag-lost") \cup If(got \subseteq want, "tag-added")
Bad(s, e) ==
  IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE LET t == e.nodes  all == Machine(t)
           ims == Groups(Descend(t, <<"ImageList">>))
           keep == SelectSeq([i \in 1..Len(ims) |-> i], LAMBDA i: (i - 1) \notin Thumbs(t)) IN
    IF Len(e.obs.sigs) # Len(keep) THEN {"number-of-images"}
    ELSE UNION {BadImage(e, all, ims[keep[i]], e.imgs[keep[i]], e.obs.sigs[i]) : i \in 1..Len(keep)}
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
