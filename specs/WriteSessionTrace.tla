------------------------- MODULE WriteSessionTrace -------------------------
(* Judges sessions of saving and reading recorded from the real code.        *)
(* State: ref: key -> what a process that does nothing else saved and read   *)
(* (or the error of saving); file: place -> key saved there last.            *)
(* Events   new | ref k obs | save p k args sig others err | sig same        *)
(*          | read p obs | file same                                         *)
EXTENDS VF
VARIABLES l, st, fails
SigDiff(a, b) == \* a: reference, b: observed
  If(a.keys = b.keys, "keys")
  \cup (IF Has(a, "data") /\ Has(b, "data") THEN If(a.data.dt = b.data.dt, "dtype") \cup If(a.data.sh = b.data.sh, "shape") \cup If(a.data.h = b.data.h \/ (Has(a.data, "h8") /\ Has(b.data, "h8") /\ a.data.h8 = b.data.h8), "values") ELSE {})
  \cup (IF Has(a, "axh") /\ Has(b, "axh") THEN If(a.axh = b.axh, "axes") ELSE {})
  \cup If(a.md = b.md, "metadata") \cup If(a.om = b.om, "original_metadata")
  \cup If(a.rest = b.rest, "other-fields")
ObsDiff(a, b) ==
  IF IsErr(a) /\ IsErr(b) THEN If(a.err = b.err, "other-error")
  ELSE IF IsErr(b) THEN {"error-" \o b.err}
  ELSE IF IsErr(a) THEN {"no-error"}
  ELSE IF Len(a.sigs) # Len(b.sigs) THEN {"number-of-signals"}
  ELSE UNION {SigDiff(a.sigs[i], b.sigs[i]) : i \in 1..Len(a.sigs)}
Bad(s, e) ==
  CASE e.ev = "new" -> {}
    [] e.ev = "ref" -> {}
    [] e.ev = "save" ->
         LET w == s.ref[e.k] IN
         If(e.sig, "signal-changed") \cup If(e.args, "arguments-changed") \cup If(e.others, "other-file-changed")
         \cup (IF e.err = "" THEN If(w.saved, "no-error") ELSE IF w.saved THEN {"error-" \o e.err} ELSE If(w.err = e.err, "other-error"))
    [] e.ev = "read" -> ObsDiff(s.ref[s.file[e.p]].obs, e.obs) \cup If(e.sig, "signal-changed")
    [] e.ev = "file" -> If(e.same, "file-changed")
Step(s, e) ==
  CASE e.ev = "new" -> [ref |-> <<>>, file |-> <<>>]
    [] e.ev = "ref" -> [s EXCEPT !.ref = (e.k :> e) @@ @]
    [] e.ev = "save" -> [s EXCEPT !.file = (e.p :> e.k) @@ @]
    [] OTHER -> s
INSTANCE VFTrace WITH InitSt <- [ref |-> <<>>, file |-> <<>>]
=============================================================================
