----------------------------- MODULE TextLogsTrace -----------------------------
(* Judges what the readers of text logs returned for made files.              *)
EXTENDS TextLogs
VARIABLES l, st, fails
Init0 == 0
SetOf(s) == {s[i] : i \in 1..Len(s)}
BadMsa(e) ==
  LET o == e.obs  m == MsaRun(e.lines) IN
  If(o.data = MsaData(m), "channels")
  \cup If(o.axis = MsaAxis(m), "axis")
  \cup If(SetOf(o.pars) = MsaPars(m) /\ Len(o.pars) = Cardinality(MsaPars(m)), "parameters")
  \cup If(SetOf(o.md) = MsaMeta(m, e), "metadata")
\* o.scale in 1/prec of a unit, o.rel (offset less the first time) in 1/prec2
BadDens(e) ==
  IF e.bad /= "" THEN If(IsErr(e.obs) /\ e.obs.err = "AssertionError", "not-refused")
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE
    LET o == e.obs  n == Len(e.rows)
        ts == Unroll([i \in 1..n |-> e.rows[i].t], e.day)
        num == SlopeNum(ts)  den == SlopeDen(n)
        \* mean of the times less half the length of the line
        mean == SumSeq([i \in 1..n |-> ts[i] - ts[1]]) IN
    If(o.data = [i \in 1..n |-> e.rows[i].v], "temperatures")
    \cup If(o.size = n, "axis-size")
    \cup If(Abs((num * e.prec) - (den * o.scale)) <= den, "time-step")
    \* 2 n (offset - t1) = 2 mean - n (n-1) slope, all times den
    \cup If(Abs((2 * mean * den * e.prec2) - (n * (n - 1) * num * e.prec2) - (2 * n * den * o.rel)) <= 4 * n * den, "time-offset")
    \cup If(o.md = e.md, "metadata")
    \cup If(o.head = e.head, "header")
BadProtoRows(e) ==
  LET o == e.obs  n == Len(e.rows)  ts == [i \in 1..n |-> e.rows[i].t] IN
  If(Len(o.sigs) = Len(e.cols), "signals")
  \cup (IF Len(o.sigs) /= Len(e.cols) THEN {} ELSE UNION {
    LET s == o.sigs[c]  q == e.cols[c] IN
    If(s.data = [i \in 1..n |-> e.rows[i].v[c]], "samples")
    \cup If(s.title = q.name \o " (" \o ProtoUnits(e, q.word) \o ")", "title")
    \cup If(s.quantity = q.last \o " (" \o ProtoUnits(e, q.word) \o ")", "quantity")
    \cup If(s.size = n /\ s.name = "Time" /\ s.units = "s" /\ s.off = 0 /\ s.nav = FALSE, "time-axis")
    \cup If(StepOk(Sub(ts, 2, n - 1), s.scale), "time-step")
    \cup If(s.date = e.date /\ s.time = e.time, "when") : c \in 1..Len(e.cols)})
  \cup If(o.times = ts, "times")
  \cup If(SetOf(o.notes) = ProtoNotes(e) /\ Len(o.notes) = Cardinality(ProtoNotes(e)), "notes")
  \cup If(o.user = e.user, "user")
  \cup If(o.calib = e.calib, "calibration")
\* a file without user whose first sample was taken for the end of the header
FirstLost(e) == e.user = "" /\ e.obs.times = [i \in 1..(Len(e.rows) - 1) |-> e.rows[i + 1].t]
BadProto(e) == IF FirstLost(e) THEN {"first-sample-lost"} \cup BadProtoRows([e EXCEPT !.rows = Tail(@)]) ELSE BadProtoRows(e)
BadImpulse(e) ==
  IF e.bad THEN If(IsErr(e.obs) /\ e.obs.err = "OSError", "not-refused")
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE
    LET o == e.obs  n == Len(e.rows)  ts == [i \in 1..n |-> e.rows[i].t] IN
    If(Len(o.sigs) = Len(e.cols), "signals")
    \cup (IF Len(o.sigs) /= Len(e.cols) THEN {} ELSE UNION {
      LET s == o.sigs[c]  q == e.cols[c] IN
      If(s.data = (IF q.name = "MixValve" THEN [i \in 1..n |-> 1000 * Valve(e.rows[i].valve)] ELSE [i \in 1..n |-> e.rows[i].v[c]]), "samples")
      \cup If(s.title = q.name, "title")
      \cup If(s.quantity = q.units, "quantity")
      \cup If(s.size = n /\ s.name = "Time" /\ s.off = 0 /\ s.nav = FALSE, "time-axis")
      \cup If(StepOk(Sub(ts, 2, n - 1), s.scale), "time-step")
      \cup If(s.date = e.date /\ s.time = e.time, "when") : c \in 1..Len(e.cols)})
    \cup If(SetOf(o.pars) = SetOf(e.pars) /\ Len(o.pars) = Len(e.pars), "parameters")
    \cup If(o.notes = e.notes, "notes")
Bad(s, e) ==
  CASE e.fmt = "dens" -> BadDens(e)
    [] e.fmt = "impulse" -> BadImpulse(e)
    [] IsErr(e.obs) -> {"error-" \o e.obs.err}
    [] e.fmt = "msa" -> BadMsa(e)
    [] OTHER -> BadProto(e)
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
