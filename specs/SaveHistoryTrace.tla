-------------------------- MODULE SaveHistoryTrace --------------------------
EXTENDS SaveHistory
VARIABLES l, st, fails
\* the observation itself may have left the file open
Step(s, e) == IF e.op = "new" THEN NoFile
              ELSE LET t == Apply(s, e) IN [t EXCEPT !.open = @ \/ (e.fmt = "hspy" /\ e.lazyread)]
SigBad(want, o) ==
  If(o.data = want.data /\ o.ok, "data") \cup If(o.dt = want.dt, "dtype")
  \cup If(o.ax = want.ax, "axes") \cup If(SameTree(want.tree, o.tree), "metadata")
Agrees(file, o) ==
  IF IsErr(o) THEN {"read-error-" \o o.err}
  ELSE IF {o.sigs[i].title : i \in 1..Len(o.sigs)} # DOMAIN file \/ Len(o.sigs) # Cardinality(DOMAIN file)
    THEN {"signals-in-file"}
  ELSE UNION {SigBad(file[o.sigs[i].title], o.sigs[i]) : i \in 1..Len(o.sigs)}
Bad(s, e) ==
  IF e.op = "new" THEN {}
  ELSE LET f == Apply(s, e).file IN
    (IF Refused(s, e) THEN If(e.save.err = "OSError", "must-refuse")
                   ELSE If(e.save.err = "", "save-error-" \o e.save.err))
    \cup Agrees(f, e.read)
INSTANCE VFTrace WITH InitSt <- NoFile
=============================================================================
