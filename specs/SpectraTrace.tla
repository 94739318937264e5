----------------------------- MODULE SpectraTrace -----------------------------
(* Judges what the real readers returned for made files.                       *)
EXTENDS Spectra
VARIABLES l, st, fails
Init0 == 0
SetOf(s) == {s[i] : i \in 1..Len(s)}
Sizes(axes) == [i \in 1..Len(axes) |-> axes[i].size]
BadLab(e) ==
  LET o == e.obs
      set == SetOf(e.set)
      want == LabAxes(<<e.nav2, e.nav1>>, e.w, AxisName(e.units)[1], AxisName(e.units)[2], e.uniform) IN
  If(o.flat = Data(e.rows, e.w) /\ o.shape = Sizes(want), "data")
  \cup If(o.axes = want, "axes")
  \cup If(SetOf(o.settings) = Settings(set) \cup {[k |-> "title", v |-> "s:" \o e.title], [k |-> "measurement_type", v |-> "s:SpIm"], [k |-> "signal type", v |-> "s:" \o e.qtype],
        [k |-> "signal units", v |-> "s:" \o e.qunits]} \cup (IF e.angle < 0 THEN {} ELSE {[k |-> "rotation angle (rad)", v |-> Num(e.angle)]}), "settings")
  \cup If(SetOf(o.info) = SetOf(e.info), "file-information")
  \cup If(SetOf(o.instrument) = LabInstrument(set), "instrument")
  \cup If(IF e.angle < 0 THEN o.angle = -1 ELSE LET d == o.angle - ((e.angle * 572958) \div 10000) IN d >= -1 /\ d <= 1, "angle")
  \cup If(o.quantity = Quantity(e.qtype, e.qunits), "quantity")
  \cup If(o.general = [title |-> e.title, file |-> e.fname, date |-> e.date, time |-> e.time, notes |-> e.notes, sample |-> e.sample], "general")
BadHam(e) ==
  LET o == e.obs IN
  If(o.flat = Data(e.rows, e.wcal) /\ o.shape = <<e.h, e.w>>, "data")
  \cup If(o.axes = HamamatsuAxes(e), "axes")
  \cup If(SetOf(o.sections) = SetOf(e.sections), "sections")
  \cup If(o.head = e.head, "header")
  \cup If(SetOf(o.instrument) = SetOf(e.instrument), "instrument")
  \cup If(o.general = [title |-> e.title, file |-> e.fname, date |-> e.date, time |-> e.time], "general")
  \cup If(o.quantity = e.quantity, "quantity")
\* the glued spectrum, or each of those glued
Parts(e) == IF e.stack /\ e.children # <<>> THEN e.children ELSE <<[w |-> e.w, rows |-> e.rows]>>
BadTri(e) ==
  LET o == e.obs.signals  want == Parts(e) IN
  IF Len(o) # Len(want) THEN {"signals"}
  ELSE UNION {LET axes == TriVistaAxes(e, want[i].w) IN
              If(o[i].flat = FlattenSeq(want[i].rows) /\ o[i].shape = Sizes(axes), "data")
              \cup If(o[i].axes = axes, "axes")
              \cup If(SetOf(o[i].instrument) = TriVistaInstrument(e), "instrument")
              \cup If(o[i].quantity = e.label \o " (" \o e.datalabel \o ")", "quantity")
              \cup If(o[i].general = [title |-> e.title, file |-> e.fname, date |-> e.date, time |-> e.time], "general")
              : i \in 1..Len(want)}
Bad(s, e) ==
  IF e.bad # "" THEN If(IsErr(e.obs) /\ e.obs.err = e.bad, "not-refused")
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE CASE e.kind = "labspec" -> BadLab(e) [] e.kind = "hamamatsu" -> BadHam(e) [] OTHER -> BadTri(e)
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
