------------------------------- MODULE Migration -------------------------------
(* Metadata of HyperSpy files of older versions, under their present names.    *)
(* A tree is a set of leaves [p |-> path, v |-> value].                        *)
EXTENDS VF
Older(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
After(p, n) == SubSeq(p, n + 1, Len(p))
Starts(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q
HasPath(T, q) == \E x \in T : Starts(x.p, q)
TEM == <<"Acquisition_instrument", "TEM">>
SEM == <<"Acquisition_instrument", "SEM">>

\* before 1.1: the signal type and the title had other names
M11(p) == CASE p = <<"signal">> -> <<"Signal", "signal_type">>
            [] p = <<"name">> -> <<"General", "title">>
            [] OTHER -> p
\* before 1.2: no groups at the root, detectors in the microscope
Times == {"dwell_time", "dwell_time_units", "exposure", "exposure_units"}
Tem(r, eels) == CASE r[1] \in {"EELS", "EDS"} -> <<"Detector">> \o r
                  [] r[1] \in Times /\ eels -> <<"Detector", "EELS">> \o r
                  [] OTHER -> r
Sem(r) == IF r[1] = "EDS" THEN <<"Detector">> \o r ELSE r
Internal(r) == CASE r[1] = "stacking_history" -> <<"Stacking_history">> \o After(r, 1)
                 [] r[1] = "folding" -> <<"Folding">> \o After(r, 1)
                 [] OTHER -> r
M12(p, eels) ==
  CASE p[1] = "_internal_parameters" -> <<"_HyperSpy">> \o Internal(After(p, 1))
    [] p[1] = "Variance_estimation" -> <<"Noise_properties", "Variance_linear_model">> \o After(p, 1)
    [] p[1] = "TEM" -> TEM \o Tem(After(p, 1), eels)
    [] p[1] = "SEM" -> SEM \o Sem(After(p, 1))
    [] Starts(p, <<"Sample", "Xray_lines">>) -> <<"Sample", "xray_lines">> \o After(p, 2)
    [] p[1] \in {"title", "date", "time", "original_filename"} -> <<"General">> \o p
    [] p[1] \in {"record_by", "signal_origin", "signal_type"} -> <<"Signal">> \o p
    [] OTHER -> p
\* before 3.0: the stage and the camera in the microscope
M30(p, timed) ==
  CASE p = Append(TEM, "tilt_stage") -> TEM \o <<"Stage", "tilt_alpha">>
    [] p = Append(SEM, "tilt_stage") -> SEM \o <<"Stage", "tilt_alpha">>
    [] p = Append(TEM, "exposure_time") -> TEM \o <<"Detector", "Camera", "exposure">>
    [] p = Append(TEM, "exposure") /\ ~timed -> TEM \o <<"Detector", "Camera", "exposure">>
    [] OTHER -> p
Map(T, F(_)) == {[x EXCEPT !.p = F(x.p)] : x \in T}
To11(T) == Map(T, M11)
To12(T) == LET e == HasPath(T, <<"TEM", "EELS">>) F(p) == M12(p, e) IN Map(T, F)
To30(T) == LET t == HasPath(T, Append(TEM, "exposure_time")) F(p) == M30(p, t) IN Map(T, F)
Migrate(T, v) ==
  LET a == IF Older(v, <<1, 1>>) THEN To11(T) ELSE T
      b == IF Older(v, <<1, 2>>) THEN To12(a) ELSE a
  IN IF Older(v, <<3, 0>>) THEN To30(b) ELSE b
\* results of decompositions
ResultName(v, n) == CASE Older(v, <<1, 1>>) /\ n = "mva_results" -> "learning_results"
                      [] Older(v, <<1, 1>>) /\ n = "peak_mva_results" -> "peak_learning_results"
                      [] OTHER -> n
\* the version of a file: what it says, else what it has
VersionOf(said, experiments, analysis) ==
  IF said # <<>> THEN said ELSE IF experiments THEN <<1, 0>> ELSE IF analysis THEN <<2, 0>> ELSE <<>>
================================================================================
