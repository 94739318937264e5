------------------------------ MODULE BcfTrace ------------------------------
(* Composite files made for the purpose, read by the real reader.             *)
EXTENDS Bcf
VARIABLES l, st, fails
\* positions along a chunked item: what is in byte p of item i
Byte(i, p) == (((p % 251) * (1 + ((p \div 251) % 250))) + (p \div 62750) + i) % 251
Map(e, o, lines, sum) ==
  LET ns == Channels(e.head, sum, e.cut, e.kv)
      m == o.shape[3]
      sh == <<CeilDiv(e.h, e.ds), CeilDiv(e.w, e.ds)>>
      want == TLCEval(Cube(lines, e.w, e.h, e.nch, m, e.ds))
  IN If(m \in ns, "channels") \cup If(Sub(o.shape, 1, 2) = sh, "shape")
     \cup If(m \notin ns \/ Sub(o.shape, 1, 2) # sh \/ o.cube = want, "counts")
     \cup If(o.kind = "u" /\ o.declared = o.dtype, "type")
     \cup If(o.axes = Space(e.head, e.ds, sh[1], sh[2]) \o Energy(e.head, m), "axes")
     \cup If(o.title = "EDX" /\ o.date = e.head.isodate /\ o.time = e.head.isotime, "date")
     \cup If(o.sample = e.head.name /\ o.elements = Range(e.head.elements) /\ o.lines = {Lines[x] : x \in Range(e.head.elements)}, "sample")
     \cup If(o.mode = Mode(e.head, e.instrument) /\ o.stype = "EDS_" \o o.mode /\ o.beam = e.head.hv, "instrument")
     \cup If(o.real = 64 * e.w * e.h, "real-time") \cup If(o.live = 1500 /\ o.elevation = 35, "detector")
Picture(e, o, im) ==
  If(o.flat = im.flat /\ o.shape = <<e.h, e.w>> /\ o.dtype = im.dtype, "image")
  \cup If(o.axes = Space(e.head, 1, e.h, e.w), "image-axes") \cup If(o.title = im.title, "image-title")
Wanted(e) == IF e.index = 0 - 2 THEN [i \in 1..Len(e.maps) |-> i] ELSE IF e.index = 0 - 1 THEN <<1>> ELSE <<e.index + 1>>
File(e) ==
  IF IsErr(e.out) THEN {e.out.err}
  ELSE
    LET ims == IF e.select = "spectrum_image" THEN <<>> ELSE SelectSeq(e.images, LAMBDA im : \E v \in Range(im.flat) : v # 0)
        ms == IF e.select = "image" THEN <<>> ELSE Wanted(e)
    IN If(Len(e.out.images) = Len(ims) /\ Len(e.out.maps) = Len(ms), "number-of-signals")
       \cup (IF Len(e.out.images) # Len(ims) THEN {} ELSE UNION {Picture(e, e.out.images[i], ims[i]) : i \in 1..Len(ims)})
       \cup (IF Len(e.out.maps) # Len(ms) THEN {} ELSE UNION {Map(e, e.out.maps[i], e.maps[ms[i]], e.sums[ms[i]]) : i \in 1..Len(ms)})
Container(e) ==
  IF IsErr(e.out) THEN {e.out.err}
  ELSE LET p == Pointers(e.disk, e.table, e.n, e.per) IN
    \* the whole item, chunk by chunk
    If(Len(e.out.chunks) = e.n /\ \A i \in 1..e.n : e.disk[p[i]].tag \in Range(e.out.chunks[i]), "chunks") \cup If(e.out.size = e.size, "size")
    \* pieces of it
    \cup UNION {LET q == e.out.pieces[k] IN
                If(q.size = q.length /\ \A j \in 1..Len(q.at) : q.byte[j] = Byte(e.item, q.offset + q.at[j]), "piece") : k \in 1..Len(e.out.pieces)}
Spx(e) ==
  IF IsErr(e.out) THEN {e.out.err}
  ELSE If(e.out.flat = e.sum, "counts") \cup If(e.out.axes = Energy(e.head, Len(e.sum)), "axes")
       \cup If(e.out.date = e.head.isodate /\ e.out.time = e.head.isotime, "date")
       \cup If(e.out.mode = Mode(e.head, "") /\ e.out.stype = "EDS_" \o e.out.mode /\ e.out.beam = e.head.hv, "instrument")
       \cup If(e.out.sample = e.head.name /\ e.out.real = 2000 /\ e.out.live = 1500 /\ e.out.elevation = 35, "detector")
BadSet(s, e) == CASE e.ev = "file" -> File(e) [] e.ev = "sfs" -> Container(e) [] e.ev = "spx" -> Spx(e) [] OTHER -> {e.out.err}
Bad(s, e) ==
  CASE e.ev = "file" -> File([e EXCEPT !.out = IF IsErr(e.out) THEN e.out
           ELSE [e.out EXCEPT !.maps = [i \in 1..Len(e.out.maps) |-> [e.out.maps[i] EXCEPT !.elements = Range(@), !.lines = Range(@)]]]])
    [] OTHER -> BadSet(s, e)
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- 0
=============================================================================
