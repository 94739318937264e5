-------------------------------- MODULE Spectra --------------------------------
(* Spectra of optical spectrometers and streak cameras: every count stays with *)
(* its wavelength and position. Numbers are in thousandths.                    *)
EXTENDS VF
Descends(w) == Len(w) > 1 /\ w[1] > w[2]
Upward(w) == IF Descends(w) THEN Reverse(w) ELSE w
Arranged(row, w) == IF Descends(w) THEN Reverse(row) ELSE row
\* rows in the order recorded: the last position varies fastest
Data(rows, w) == FlattenSeq([i \in 1..Len(rows) |-> Arranged(rows[i], w)])
Even(name, units, a, nav) == [name |-> name, units |-> units, nav |-> nav, size |-> Len(a), off |-> a[1], scale |-> a[2] - a[1], axis |-> <<>>]
Listed(name, units, a) == [name |-> name, units |-> units, nav |-> FALSE, size |-> Len(a), off |-> 0, scale |-> 0, axis |-> a]
SignalAxis(name, units, w, uniform) == IF uniform THEN Even(name, units, Upward(w), FALSE) ELSE Listed(name, units, Upward(w))
NonEmpty(ps) == SelectSeq(ps, LAMBDA p : Len(p.a) > 1)
\* ------------------------------------------------------- LabSpec
\* positions: slowest first; those with one value are no axes
LabAxes(ps, w, name, units, uniform) == [i \in 1..Len(NonEmpty(ps)) |-> LET p == NonEmpty(ps)[i] IN Even(p.name, p.units, p.a, TRUE)] \o <<SignalAxis(name, units, w, uniform)>>
Second == {"Objective", "Grating", "ND Filter", "Laser (nm)", "Spectro (nm)"}
Numeric == Second \cup {"Acq. time (s)", "Accumulations", "Delay time (s)", "Binning", "Detector temperature (°C)", "Hole", "Laser Pol. (°)", "Raman Pol. (°)", "X (µm)", "Y (µm)",
                         "Z (µm)", "Full time(s)", "rotation angle (rad)", "Windows"}
KeyOf(k) == CASE k = "Grating" -> "Grating (gr/mm)" [] k = "ND Filter" -> "ND Filter (%)" [] OTHER -> k
Num(n) == "n:" \o ToString(n)
SettingValue(s) == IF s.k \in Numeric THEN Num(IF s.k \in Second THEN s.n2 ELSE s.n) ELSE "s:" \o s.t
Settings(set) == {[k |-> KeyOf(s.k), v |-> SettingValue(s)] : s \in set}
Places == <<[k |-> "Laser (nm)", p |-> <<"Laser", "wavelength">>], [k |-> "Objective", p |-> <<"Laser", "objective_magnification">>], [k |-> "Laser. Pol.", p |-> <<"Laser", "Polarizer", "polarizer_type">>],
            [k |-> "Laser Pol. (°)", p |-> <<"Laser", "Polarizer", "angle">>], [k |-> "Spectro (nm)", p |-> <<"Spectrometer", "central_wavelength">>], [k |-> "Instrument", p |-> <<"Spectrometer", "model">>],
            [k |-> "Grating", p |-> <<"Spectrometer", "Grating", "groove_density">>], [k |-> "Range", p |-> <<"Spectrometer", "spectral_range">>], [k |-> "Raman. Pol.", p |-> <<"Spectrometer", "Polarizer", "polarizer_type">>],
            [k |-> "Raman Pol. (°)", p |-> <<"Spectrometer", "Polarizer", "angle">>], [k |-> "Detector", p |-> <<"Detector", "model">>], [k |-> "Delay time (s)", p |-> <<"Detector", "delay_time">>],
            [k |-> "Binning", p |-> <<"Detector", "binning">>], [k |-> "Detector temperature (°C)", p |-> <<"Detector", "temperature">>], [k |-> "Acq. time (s)", p |-> <<"Detector", "exposure_per_frame">>],
            [k |-> "Accumulations", p |-> <<"Detector", "frames">>], [k |-> "Autofocus", p |-> <<"Detector", "processing", "autofocus">>], [k |-> "SWIFT", p |-> <<"Detector", "processing", "swift">>],
            [k |-> "AutoExposure", p |-> <<"Detector", "processing", "auto_exposure">>], [k |-> "Spike filter", p |-> <<"Detector", "processing", "spike_filter">>], [k |-> "DeNoise", p |-> <<"Detector", "processing", "de_noise">>],
            [k |-> "ICS correction", p |-> <<"Detector", "processing", "ics_correction">>], [k |-> "Dark correction", p |-> <<"Detector", "processing", "dark_correction">>],
            [k |-> "Inst. Process", p |-> <<"Detector", "processing", "inst_process">>], [k |-> "Windows", p |-> <<"Detector", "glued_spectrum_windows">>]>>
Setting(set, k) == {s \in set : s.k = k}
LabInstrument(set) ==
  {[p |-> Places[i].p, v |-> SettingValue(s)] : <<i, s>> \in {<<i, s>> \in (1..Len(Places)) \X set : Places[i].k = s.k}}
  \cup {[p |-> <<"Detector", "glued_spectrum">>, v |-> IF Setting(set, "Windows") # {} THEN "b:True" ELSE "b:False"]}
  \cup UNION {{[p |-> <<"Spectrometer", "entrance_slit_width">>, v |-> Num(s.n \div 100)], [p |-> <<"Spectrometer", "pinhole">>, v |-> Num(s.n \div 100)]} : s \in Setting(set, "Hole")}
  \cup {[p |-> <<"Laser", "Filter", "optical_density">>, v |-> Num(s.n2 \div 100)] : s \in Setting(set, "ND Filter")}
  \cup {[p |-> <<"Detector", "integration_time">>, v |-> Num((a.n * t.n) \div 1000)] : <<a, t>> \in Setting(set, "Accumulations") \X Setting(set, "Acq. time (s)")}
Quantity(type, units) == (IF type = "Intens" THEN "Intensity" ELSE type) \o " (" \o (CASE units = "Cnt/sec" -> "Counts/s" [] units = "Cnt" -> "Counts" [] OTHER -> units) \o ")"
AxisName(u) == CASE u = "1/cm/abs" -> <<"Wavenumber", "1/cm">> [] u = "1/cm" -> <<"Raman Shift", u>> [] u = "eV" -> <<"Energy", u>> [] OTHER -> <<"Wavelength", u>>
\* ------------------------------------------------------- HPD-TA
Micro(u) == IF u = "us" THEN "µs" ELSE u
HamamatsuAxes(e) ==
  <<IF e.tcal = <<>> THEN Even("Vertical CCD Position", "px", [i \in 1..e.h |-> (i - 1) * 1000], FALSE) ELSE SignalAxis("Time", Micro(e.tunit), e.tcal, e.uniform),
    IF e.wcal = <<>> THEN Even("Uncalibrated X axis", "px", [i \in 1..e.w |-> (i - 1) * 1000], FALSE) ELSE SignalAxis("Wavelength", e.wunit, e.wcal, e.uniform)>>
\* ------------------------------------------------------- TriVista
Grid(name, x) == [name |-> name, units |-> "µm", nav |-> TRUE, size |-> x.n, off |-> x.from, scale |-> x.step, axis |-> <<>>]
TriVistaAxes(e, w) ==
  (IF e.y.n > 0 THEN <<Grid("Y", e.y)>> ELSE <<>>) \o (IF e.x.n > 0 THEN <<Grid("X", e.x)>> ELSE <<>>)
  \o (IF e.times # <<>> THEN <<[name |-> "time", units |-> "s", nav |-> FALSE, size |-> Len(e.times), off |-> 0, scale |-> e.times[2] - e.times[1], axis |-> <<>>]>> ELSE <<>>)
  \o <<IF e.uniform THEN Even("Wavelength", "nm", w, FALSE) ELSE Listed("Wavelength", "nm", w)>>
Spectrometer(e, s, name) ==
  {[p |-> <<name, "Grating", "blazing_wavelength">>, v |-> IF s.blaze > 0 THEN Num(s.blaze) ELSE "s:" \o s.blazetext],
   [p |-> <<name, "Grating", "groove_density">>, v |-> Num(s.groove)], [p |-> <<name, "model">>, v |-> "s:" \o s.model]}
  \cup (IF e.center >= 0 THEN {[p |-> <<name, "central_wavelength">>, v |-> Num(e.center)]} ELSE {})
  \cup (IF s.slits = <<>> THEN {} ELSE {[p |-> <<name, "entrance_slit_width">>, v |-> Num(Max2(s.slits[1], s.slits[2]))], [p |-> <<name, "exit_slit_width">>, v |-> Num(Max2(s.slits[3], s.slits[4]))]})
TriVistaInstrument(e) ==
  UNION {Spectrometer(e, e.used[i], IF Len(e.used) = 1 THEN "Spectrometer" ELSE "Spectrometer" \o ToString(i)) : i \in 1..Len(e.used)}
  \cup {[p |-> <<"Detector", "temperature">>, v |-> Num(e.temp)], [p |-> <<"Detector", "frames">>, v |-> Num(e.acc * 1000)], [p |-> <<"Detector", "exposure_per_frame">>, v |-> Num(e.exposure)],
        [p |-> <<"Detector", "processing", "calc_average">>, v |-> IF e.average THEN "b:True" ELSE "b:False"],
        [p |-> <<"Detector", "integration_time">>, v |-> Num(IF e.average THEN e.exposure ELSE e.exposure * e.acc)]}
  \* (a series repeats the experiment's section)
  \cup (IF e.times = <<>> THEN {[p |-> <<"Detector", "glued_spectrum">>, v |-> IF e.overlap >= 0 THEN "b:True" ELSE "b:False"]} ELSE {})
  \cup (IF e.overlap >= 0 THEN {[p |-> <<"Detector", "glued_spectrum_overlap">>, v |-> Num(e.overlap)], [p |-> <<"Detector", "glued_spectrum_windows">>, v |-> Num(Len(e.children) * 1000)]} ELSE {})
  \cup (IF e.magnification >= 0 THEN {[p |-> <<"Laser", "objective_magnification">>, v |-> Num(e.magnification)]} ELSE {})
  \cup (IF e.laser > 0 THEN {[p |-> <<"Laser", "wavelength">>, v |-> Num(e.laser)]} ELSE {})
================================================================================
