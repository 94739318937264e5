---------------------------- MODULE MigrationTrace ----------------------------
(* Judges what the real reader returned for files of every version.           *)
EXTENDS Migration
VARIABLES l, st, fails
Init0 == 0
SetOf(s) == {s[i] : i \in 1..Len(s)}
Under1(n, T) == {[x EXCEPT !.p = <<n>> \o x.p] : x \in T}
Version(e) == VersionOf(e.said, e.hasexp, e.hasana)
Signals(e) == SelectSeq(e.exps, LAMBDA x : x.whole)
\* the models of a signal; the others stand alone
Owned(e, x) == {[n |-> m.n, t |-> SetOf(m.tree)] : m \in {m \in SetOf(e.models) : m.of = x.name}}
Alone(e) == {[n |-> m.n, t |-> SetOf(m.tree)] : m \in {m \in SetOf(e.models) : \A i \in 1..Len(Signals(e)) : Signals(e)[i].name # m.of}}
Attributes(e, x, v) == SetOf(x.attributes) \cup UNION {Under1(ResultName(v, r.n), SetOf(r.tree)) : r \in SetOf(x.results)}
                       \cup {[p |-> <<"_lazy">>, v |-> IF e.lazy THEN "b:True" ELSE "b:False"]}
BadSignal(e, x, o, v) ==
  If(SetOf(o.md) = Migrate(SetOf(x.md), v), "metadata")
  \cup If(SetOf(o.om) = SetOf(x.om), "original-metadata")
  \cup If(SetOf(o.attributes) = Attributes(e, x, v), "attributes")
  \cup If(o.package = x.package, "package")
  \cup If(o.axes = x.axes, "axes")
  \cup If(o.shape = x.shape /\ o.flat = x.flat, "data")
  \cup If({[n |-> m.n, t |-> SetOf(m.tree)] : m \in SetOf(o.models)} = Owned(e, x), "models")
Unreadable(e) == \/ Version(e) = <<>>
                 \/ \E i \in 1..Len(Signals(e)) : ~Signals(e)[i].valid
                 \/ (Signals(e) = <<>> /\ e.models = <<>>)
Bad(s, e) ==
  IF Unreadable(e) THEN If(IsErr(e.obs) /\ e.obs.err \in {"OSError", "IOError"}, "not-refused")
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE LET want == Signals(e) o == e.obs.signals IN
  IF Len(o) # Len(want) THEN {"signals"}
  ELSE UNION {BadSignal(e, want[i], o[i], Version(e)) : i \in 1..Len(want)}
       \cup If({[n |-> m.n, t |-> SetOf(m.tree)] : m \in SetOf(e.obs.alone)} = Alone(e), "models-alone")
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
