--------------------------- MODULE OutputContract ---------------------------
(* What every reader returns (doc/api): a list of signals, each with data,   *)
(* axes, metadata and original_metadata, where the axes describe the array.  *)
EXTENDS VF
VARIABLES l, st, fails
\* the dimension an axis describes: its index_in_array, or its position
DimOf(ax, i, n) == IF ax.i = -99 THEN i ELSE IF ax.i < 0 THEN n + ax.i + 1 ELSE ax.i + 1
AxesOK(s) ==
  LET n == Len(s.data.sh)  m == Len(s.axes) IN
  If(m = n, "number-of-axes")
  \cup (IF m # n THEN {} ELSE
        LET d == [i \in 1..m |-> DimOf(s.axes[i], i, n)] IN
        If(\A i \in 1..m : d[i] \in 1..n, "index-out-of-range")
        \cup If(Cardinality({d[i] : i \in 1..m}) = m, "index-repeated")
        \cup If(\A i \in 1..m : d[i] \in 1..n => s.axes[i].n = s.data.sh[d[i]], "axis-size")
        \cup If(\A i \in 1..m : s.axes[i].cal, "calibration")
        \cup If(\A i \in 1..m : s.axes[i].name /\ s.axes[i].units, "name-or-units"))
SigOK(e, s) ==
  \* (a model that belongs to none of the signals of an old file comes alone)
  If(\/ s.keys = <<"data", "axes", "metadata", "original_metadata">>
     \/ s.keys = <<>> /\ e.plugin \in {"hspy", "zspy"}, "fields")
  \cup (IF Has(s, "data") /\ Has(s, "axes") /\ ~(e.noaxes /\ s.axes = <<>>) THEN AxesOK(s) ELSE {})
  \cup (IF Has(s, "data") THEN If(~Has(s.data, "meta"), "lazy-description") ELSE {})
Bad(s, e) ==
  IF IsErr(e.obs) THEN {} ELSE
  UNION {SigOK(e, e.obs.sigs[i]) : i \in 1..Len(e.obs.sigs)}
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- 0
=============================================================================
