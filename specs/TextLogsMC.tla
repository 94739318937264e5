------------------------------ MODULE TextLogsMC ------------------------------
(* Every EMSA file of few lines: reading it is a machine over its lines.      *)
(* Every channel is read once and in order, and nothing else is; titles and   *)
(* comments keep all their lines; every other parameter has the last value    *)
(* given; what the metadata hold comes from the parameters.  And DigiHeater   *)
(* logs: unrolled times never go back.                                        *)
EXTENDS TextLogs
CONSTANTS MaxLines
VARIABLES lines, st
vars == <<lines, st>>
Kw(raw, key, unit, text, num) == [k |-> "kw", raw |-> raw, key |-> key, unit |-> unit, text |-> text, isnum |-> TRUE, num |-> num]
Alphabet == {Kw("TITLE", "TITLE", "", "ab", 0), Kw("TITLE", "TITLE", "", "cd", 0), Kw("BEAMKV -kV", "BEAMKV", "kV", "120", 120000),
             Kw("BEAMKV", "BEAMKV", "", "20", 20000), Kw("SIGNALTYPE", "SIGNALTYPE", "", "EDS", 0), Kw("DATATYPE", "DATATYPE", "", "Y", 0),
             Kw("DATATYPE", "DATATYPE", "", "XY", 0),
             [k |-> "start"], [k |-> "data", v |-> <<1, 2>>], [k |-> "data", v |-> <<3, 4>>], [k |-> "end"], [k |-> "blank"]}
Init == lines = <<>> /\ st = MsaStart
Next == /\ Len(lines) < MaxLines
        /\ \E x \in Alphabet : lines' = Append(lines, x) /\ st' = MsaTake(st, x)
Spec == Init /\ [][Next]_vars
StartAt == LET I == {i \in 1..Len(lines) : lines[i].k = "start"} IN IF I = {} THEN Len(lines) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Channels == FlattenSeq([i \in 1..(Len(lines) - Min2(StartAt, Len(lines))) |->
              LET x == lines[StartAt + i] IN
              IF x.k /= "data" THEN <<>> ELSE IF Txt(st, "DATATYPE", "") = "Y" THEN x.v ELSE IF Txt(st, "DATATYPE", "") = "XY" THEN <<x.v[2]>> ELSE <<>>])
AllChannels == MsaData(st) = Channels
Hd == Sub(lines, 1, StartAt - 1)
TitleWhole == Txt(st, "TITLE", "") = FoldLeft(LAMBDA a, x: IF x.k = "kw" /\ x.key = "TITLE" THEN a \o x.text ELSE a, "", Hd)
Kws == {Hd[i].raw : i \in {i \in 1..Len(Hd) : Hd[i].k = "kw"}}
EveryParameter == {st.pars[i].raw : i \in 1..Len(st.pars)} = Kws /\ Cardinality(Kws) = Len(st.pars)
E0 == [date |-> [ok |-> FALSE], time |-> [ok |-> FALSE], fname |-> ""]
OnePlace == LET M == MsaMeta(st, E0) IN \A a, b \in M : a.k = b.k => a = b
Energy == LET M == MsaMeta(st, E0) IN
  (\E m \in M : m.k = TEM \o "beam_energy") <=> ("BEAMKV" \in Kws \/ "BEAMKV -kV" \in Kws)
SameAsFold == st = MsaRun(lines)
\* times of a day of 4 ticks
Rolls == \A a, b, c \in 0..3 : LET u == Unroll(<<a, b, c>>, 4) IN
           /\ u[1] = a /\ \A i \in 1..2 : u[i] <= u[i+1] /\ u[i+1] - u[i] < 4
           /\ \A i \in 1..3 : u[i] % 4 = <<a, b, c>>[i]
\* times in line have their step as slope
Line == \A s \in 0..3, n \in 2..6 : LET ts == [i \in 1..n |-> 5 + (s * (i - 1))] IN SlopeNum(ts) = s * SlopeDen(n)
Static == lines = <<>> => Rolls /\ Line
=============================================================================
