---------------------------- MODULE JeolFilesTrace ----------------------------
(* Judges what the real reader returned for made .img, .map, .eds, .asw files. *)
EXTENDS JeolFiles
VARIABLES l, st, fails
Init0 == 0
SetOf(s) == {s[i] : i \in 1..Len(s)}
Mode(kv) == IF kv <= 30000 THEN "SEM" ELSE "TEM"
Ax(name, size, scale, off, units) == [name |-> name, size |-> size, scale |-> scale, off |-> off, units |-> units, nav |-> FALSE]
\* pixels: as many as the image has, zero where the file has fewer
Pixels(e) == [i \in 1..(e.w * e.h) |-> IF i <= Len(e.bits) THEN e.bits[i] ELSE 0]
BadImg(e) ==
  LET o == e.obs IN
  If(o.shape = <<e.h, e.w>>, "shape") \cup If(o.flat = Pixels(e), "pixels")
  \cup If(o.axes = <<Ax("y", e.h, e.field \div e.h, 0, "µm"), Ax("x", e.w, e.field \div e.w, 0, "µm")>>, "axes")
  \cup If(o.md = [mode |-> Mode(e.kv), kv |-> e.kv, mag |-> e.mag, title |-> e.title, file |-> e.fname, when |-> e.when], "metadata")
  \cup If(SetOf(o.tree) = {x \in Entries(e.tree, <<>>) : x.p # <<"Image", "Bits">>}, "header")
BadEds(e) ==
  LET o == e.obs IN
  If(o.flat = e.counts /\ o.shape = <<Len(e.counts)>>, "counts")
  \cup If(o.axes = <<Ax("Energy", Len(e.counts), e.coefa, e.coefb, "keV")>>, "axes")
  \cup If(o.md = [mode |-> Mode(e.kv), kv |-> e.kv, az |-> e.az, el |-> e.el, det |-> e.det, res |-> e.res, live |-> e.live, title |-> "EDX", file |-> e.fname,
                  when |-> e.when, stype |-> "EDS_" \o Mode(e.kv)], "metadata")
  \cup If(o.head = e.head, "header") \cup If(o.par = e.par, "parameters")
  \cup If(o.elements = e.elements, "elements") \cup If(o.quanti = e.quanti, "quantification") \cup If(o.excluded = e.excluded, "excluded")
BadAsw(e) ==
  LET o == e.obs
      want == Files(e.samples) IN
  If([i \in 1..Len(o.files) |-> o.files[i].id] = [i \in 1..Len(want) |-> want[i].id], "files")
  \cup If(\A i \in 1..Len(o.files) : SetOf(o.files[i].tree) = Entries(e.tree, <<>>), "workspace")
  \cup (IF Len(o.files) # Len(want) THEN {} ELSE If(\A i \in 1..Len(want) : SetOf(o.files[i].view) = Entries(want[i].node, <<>>), "view-data"))
Bad(s, e) ==
  IF e.bad # "" THEN (IF e.bad = "empty" THEN If(~IsErr(e.obs) /\ e.obs.n = 0, "not-empty") ELSE If(IsErr(e.obs) /\ e.obs.err = e.bad, "not-refused"))
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE CASE e.kind = "img" -> BadImg(e) [] e.kind = "eds" -> BadEds(e) [] OTHER -> BadAsw(e)
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
