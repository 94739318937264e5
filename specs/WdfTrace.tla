-------------------------------- MODULE WdfTrace --------------------------------
(* Judges what the real reader returned for made WiRE files.                   *)
EXTENDS Wdf
VARIABLES l, st, fails
Init0 == 0
SetOf(s) == {s[i] : i \in 1..Len(s)}
Of(o, id) == {[p |-> Tail(x.p), v |-> x.v] : x \in {x \in SetOf(o.psets) : x.p[1] = id}}
One(set, p) == {[p |-> p, v |-> v] : v \in set}
Instrument(e) ==
  LET cs == Leaves(e.wxcs)
      ex == Extra(e.wxdm, Spare(e.wxdm))
      lasers == {q \in cs : q.p[1] = "Lasers"}  gratings == {q \in cs : q.p[1] = "Gratings"}  ccd == {q \in cs : q.p[1] = "CCD" /\ Len(q.p) = 2} IN
  (IF lasers = {} THEN {} ELSE {[p |-> <<"Laser", "wavelength">>, v |-> e.wavelength]})
  \cup One(Called(gratings, "Groove Density (lines/mm)"), <<"Spectrometer", "Grating", "groove_density">>)
  \cup (IF ccd = {} THEN {} ELSE
        {[p |-> <<"Detector", "detector_type">>, v |-> "s:CCD"]} \cup One(Called(ccd, "CCD"), <<"Detector", "model">>) \cup One(Called(ccd, "Target temperature"), <<"Detector", "temperature">>)
        \cup One(Called(ex, "Accumulations"), <<"Detector", "frames">>) \cup One(Called(ex, "Use Cosmic Ray Remove"), <<"Detector", "processing", "cosmic_ray_removal">>)
        \cup (IF Called(ex, "Accumulations") # {} /\ Called(ex, "Exposure Time") # {} THEN {[p |-> <<"Detector", "integration_time">>, v |-> e.integration]} ELSE {}))
\* the rest of what is said of the positions
Rest(e) == {[k |-> o.type, unit |-> Unit(o.unit), note |-> o.note, a |-> [i \in 1..e.num |-> o.a[i] - (IF o.type = "Time" THEN o.a[1] ELSE 0)]]
            : o \in {o \in SetOf(e.origins) : o.type \in {"BitFlags", "SpectrumDataChecksum"} \/ (o.type = "Time" /\ (e.mtype # 2 \/ Len(Positions(e)) > 1))}}
Bad(s, e) ==
  LET o == e.obs IN
  IF e.bad # "" THEN If(IsErr(o) /\ o.err = e.bad, "not-refused")
  ELSE IF IsErr(o) THEN {"error-" \o o.err}
  ELSE If(o.shape = Sizes(NavAxes(e)) \o <<Len(e.w)>>, "shape")
  \cup If(o.flat = Data(e), "data")
  \cup If(o.axes = NavAxes(e) \o <<SignalAxis(e)>>, "axes")
  \cup If(SetOf(o.header) = SetOf(e.header), "header")
  \cup If(o.general = [title |-> e.title, file |-> "a b.wdf", date |-> e.date, time |-> e.time], "general")
  \cup If(o.quantity = e.quantity, "quantity")
  \cup UNION {If(Of(o, x.id) = Leaves(x.s), "named-values") : x \in SetOf(e.psets)}
  \cup If(Of(o, "WXCS_0") = Leaves(e.wxcs), "named-values")
  \cup If({q \in Of(o, "WXDM_0") : q.p[1] # "extra_matches"} = Leaves(e.wxdm), "named-values")
  \cup If({[p |-> Tail(q.p), v |-> q.v] : q \in {q \in Of(o, "WXDM_0") : q.p[1] = "extra_matches"}} = Extra(e.wxdm, Spare(e.wxdm)), "values-of-shared-names")
  \cup If(SetOf(o.instrument) = Instrument(e), "instrument")
  \cup If(SetOf(o.origins) = Rest(e), "positions")
  \cup If(SetOf(o.maps) = SetOf(e.maps), "map-blocks")
  \cup If(o.text = e.text, "text")
  \cup If(o.unmatched => e.unmatched, "unmatched")
  \cup If(o.image = e.image, "image")
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=================================================================================
