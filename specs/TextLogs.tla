------------------------------- MODULE TextLogs -------------------------------
(* Instrument logs and spectra kept as text (EMSA/MSA, DENSsolutions          *)
(* DigiHeater and Impulse, Protochips), read line by line.  A line is given   *)
(* as the tokens it is made of; numbers are in thousandths.                   *)
EXTENDS VF
S(t) == "s:" \o t
N(n) == "n:" \o ToString(n)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
\* the last value given for key k in a sequence of [k, v], d if none
LastOf(s, k, d) == LET I == {i \in 1..Len(s) : s[i].k = k} IN IF I = {} THEN d ELSE s[CHOOSE i \in I : \A j \in I : j <= i].v
FirstOf(s, k, d) == LET I == {i \in 1..Len(s) : s[i].k = k} IN IF I = {} THEN d ELSE s[CHOOSE i \in I : \A j \in I : i <= j].v

------------------------------------------------------------------------------
(* EMSA/MSA.  Lines: [k |-> "kw", raw, key, unit, text, isnum, num],          *)
(* [k |-> "start"], [k |-> "data", v], [k |-> "end"], [k |-> "blank"].        *)
Months == <<"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC">>
Numeric == {"NPOINTS", "NCOLUMNS", "XPERCHAN", "OFFSET", "CHOFFSET", "BEAMKV", "EMISSION", "PROBECUR", "BEAMDIAM", "MAGCAM", "CONVANGLE",
            "THICKNESS", "XTILTSTGE", "YTILTSTGE", "XPOSITION", "YPOSITION", "ZPOSITION", "INTEGTIME", "DWELLTIME", "COLLANGLE",
            "ELEVANGLE", "AZIMANGLE", "SOLIDANGLE", "LIVETIME", "REALTIME", "FWHMMNKA", "TBEWIND", "TAUWIND", "TDEADLYR", "TACTLYR",
            "TALWIND", "TPYWIND", "TBNWIND", "TDIWIND", "THCWIND"}
TEM == "Acquisition_instrument.TEM."
Place == [TITLE |-> "General.title", BEAMKV |-> TEM \o "beam_energy", PROBECUR |-> TEM \o "beam_current",
          CONVANGLE |-> TEM \o "convergence_angle", THICKNESS |-> "Sample.thickness", XTILTSTGE |-> TEM \o "Stage.tilt_alpha",
          INTEGTIME |-> TEM \o "Detector.EELS.exposure", DWELLTIME |-> TEM \o "Detector.EELS.dwell_time",
          COLLANGLE |-> TEM \o "Detector.EELS.collection_angle", ELEVANGLE |-> TEM \o "Detector.EDS.elevation_angle",
          AZIMANGLE |-> TEM \o "Detector.EDS.azimuth_angle", SOLIDANGLE |-> TEM \o "Detector.EDS.solid_angle",
          LIVETIME |-> TEM \o "Detector.EDS.live_time", REALTIME |-> TEM \o "Detector.EDS.real_time",
          FWHMMNKA |-> TEM \o "Detector.EDS.energy_resolution_MnKa", EDSDET |-> TEM \o "Detector.EDS.EDS_det"]
Known == {"FORMAT", "VERSION", "TITLE", "DATE", "TIME", "OWNER", "DATATYPE", "SIGNALTYPE", "XLABEL", "YLABEL", "XUNITS", "YUNITS",
          "COMMENT", "OPERMODE", "ELSDET", "EDSDET"} \cup Numeric
Many == {"TITLE", "COMMENT"}       \* may go over several lines

MsaStart == [mode |-> "head", pars |-> <<>>, y |-> <<>>]
MsaTake(s, x) ==
  CASE s.mode = "head" /\ x.k = "kw" ->
         LET I == {i \in 1..Len(s.pars) : s.pars[i].raw = x.raw} IN
         [s EXCEPT !.pars =
            IF I = {} THEN Append(@, x)
            ELSE LET i == CHOOSE i \in I : TRUE IN
                 [@ EXCEPT ![i] = IF x.key \in Many THEN [x EXCEPT !.text = s.pars[i].text \o x.text] ELSE x]]
    [] s.mode = "head" /\ x.k = "start" -> [s EXCEPT !.mode = "data"]
    [] s.mode = "data" /\ x.k = "data" -> [s EXCEPT !.y = Append(@, x.v)]
    [] OTHER -> s
MsaRun(lines) == FoldLeft(MsaTake, MsaStart, lines)
Typed(p) == IF p.key \in Numeric /\ p.isnum THEN N(p.num) ELSE S(p.text)
\* FORMAT is rewritten
MsaPars(st) == {[k |-> st.pars[i].raw, v |-> IF st.pars[i].raw = "FORMAT" THEN S("EMSA/MAS Spectral Data File") ELSE Typed(st.pars[i])] : i \in 1..Len(st.pars)}
          \cup (IF \E i \in 1..Len(st.pars) : st.pars[i].raw = "FORMAT" THEN {} ELSE {[k |-> "FORMAT", v |-> S("EMSA/MAS Spectral Data File")]})
\* the value of the parameter called key without units, as text
Txt(st, key, d) == LET I == {i \in 1..Len(st.pars) : st.pars[i].raw = key} IN IF I = {} THEN d ELSE st.pars[CHOOSE i \in I : TRUE].text
Num(st, key, d) == LET I == {i \in 1..Len(st.pars) : st.pars[i].raw = key} IN IF I = {} THEN d ELSE st.pars[CHOOSE i \in I : TRUE].num
HasPar(st, key) == \E i \in 1..Len(st.pars) : st.pars[i].raw = key
MsaData(st) == IF Txt(st, "DATATYPE", "") = "Y" THEN FlattenSeq(st.y)
               ELSE IF Txt(st, "DATATYPE", "") = "XY" THEN FlattenSeq([i \in 1..Len(st.y) |-> IF Len(st.y[i]) > 2 THEN <<st.y[i][2], st.y[i][4]>> ELSE <<st.y[i][2]>>])
               ELSE <<>>
BeamKV(st) == LET I == {i \in 1..Len(st.pars) : st.pars[i].key = "BEAMKV"} IN IF I = {} THEN -1 ELSE st.pars[CHOOSE i \in I : \A j \in I : i <= j].num
MsaType(st) == LET t == Txt(st, "SIGNALTYPE", "") IN
  CASE t = "ELS" -> "EELS" [] t = "CLS" -> "CL"
    [] t = "EDS" -> IF BeamKV(st) > 30000 THEN "EDS_TEM" ELSE "EDS_SEM"
    [] OTHER -> ""
MsaQuantity(st) ==
  LET t == MsaType(st)
      q == IF HasPar(st, "YLABEL") THEN Txt(st, "YLABEL", "") ELSE IF t = "EELS" THEN "Electrons" ELSE IF t \in {"EDS_TEM", "EDS_SEM"} THEN "X-rays" ELSE ""
      u == IF HasPar(st, "YUNITS") THEN "(" \o Txt(st, "YUNITS", "") \o ")"
           ELSE IF ~HasPar(st, "YLABEL") /\ t \in {"EELS", "EDS_TEM", "EDS_SEM"} THEN "(Counts)" ELSE "" IN
  IF q = "" THEN u ELSE IF u = "" THEN q ELSE q \o " " \o u
\* the metadata: where each known parameter goes, with its units beside; e gives the calendar
MsaMeta(st, e) ==
  LET P == {i \in 1..Len(st.pars) : st.pars[i].key \in DOMAIN Place /\ st.pars[i].text /= ""}
      last(i) == \A j \in P : st.pars[j].key = st.pars[i].key => j <= i IN
  {[k |-> Place[st.pars[i].key], v |-> Typed(st.pars[i])] : i \in {i \in P : last(i)}}
  \cup {[k |-> Place[st.pars[i].key] \o "_units", v |-> S(st.pars[i].unit)] :
          i \in {i \in P : st.pars[i].unit /= "" /\ \A j \in P : st.pars[j].key = st.pars[i].key /\ st.pars[j].unit /= "" => j <= i}}
  \cup (IF HasPar(st, "DATE") /\ e.date.ok
        THEN {[k |-> "General.date", v |-> S(ToString(e.date.y) \o "-" \o Pad2(CHOOSE m \in 1..12 : Months[m] = e.date.mon) \o "-" \o Pad2(e.date.d))]} ELSE {})
  \cup (IF HasPar(st, "TIME") /\ e.time.ok
        THEN {[k |-> "General.time", v |-> S(Pad2(e.time.h) \o ":" \o Pad2(e.time.m) \o ":" \o Pad2(e.time.s))]} ELSE {})
  \cup {[k |-> "Signal.signal_type", v |-> S(MsaType(st))]}
  \cup (IF MsaQuantity(st) = "" THEN {} ELSE {[k |-> "Signal.quantity", v |-> S(MsaQuantity(st))]})
  \cup (IF e.fname = "" THEN {} ELSE {[k |-> "General.original_filename", v |-> S(e.fname)]})
MsaAxis(st) == [size |-> Len(MsaData(st)), name |-> Txt(st, "XLABEL", ""), units |-> Txt(st, "XUNITS", ""),
                scale |-> Num(st, "XPERCHAN", 1000), offset |-> Num(st, "OFFSET", 0), nav |-> FALSE]

------------------------------------------------------------------------------
(* DigiHeater: samples with the time of the day; a time smaller than the one  *)
(* before is on the next day.  Times are in units of u ms, day of them a day. *)
Unroll(ts, day) ==
  LET roll[i \in 1..Len(ts)] == IF i = 1 THEN 0 ELSE roll[i-1] + (IF ts[i] < ts[i-1] THEN 1 ELSE 0) IN
  [i \in 1..Len(ts) |-> ts[i] + (roll[i] * day)]
\* least squares over the samples 0..n-1: slope times its denominator n(n^2-1)/6... kept whole
SlopeNum(ts) == LET n == Len(ts) IN SumSeq([i \in 1..n |-> ((2 * (i - 1)) - (n - 1)) * (ts[i] - ts[1])])
SlopeDen(n) == (n * ((n * n) - 1)) \div 6
Abs(x) == IF x < 0 THEN -x ELSE x
\* |a/b - x| is at most 1 (x rounded)
Near(a, b, x) == Abs(a - (b * x)) <= Abs(b)

------------------------------------------------------------------------------
(* Protochips: rows of comma separated cells; the second column of the first  *)
(* rows holds the parameters, up to the user (or up to a row that is none).   *)
ProtoHead(e) == Len(e.meta)
ProtoRows(e) == e.rows
ProtoUnits(e, word) == LET I == {i \in 1..Len(e.meta) : e.meta[i].k = word} IN IF I = {} THEN "?" ELSE e.meta[CHOOSE i \in I : \A j \in I : j <= i].v
ProtoNotes(e) == {[t |-> e.rows[i].t, note |-> e.rows[i].note] : i \in {i \in 1..Len(e.rows) : e.rows[i].note /= ""}}
\* the step of a uniform axis is the step; else it lies among the steps
Steps(ts) == {ts[i+1] - ts[i] : i \in 1..(Len(ts) - 1)}
StepOk(ts, x) == \E a, b \in Steps(ts) : a <= x /\ x <= b

------------------------------------------------------------------------------
(* Impulse: the positions of the mixing valves make one number.               *)
Valve(v) == ((v[1] + 2) * 100) + ((v[2] + 2) * 10) + (v[3] + 2)
=============================================================================
