-------------------------- MODULE ReadSessionTrace --------------------------
(* Judges observations of reads recorded from the real code.  The state is   *)
(* the reference: key -> what an eager read by a new process returned.       *)
(* Events   ref k obs | read k lazy obs | file k same | open k n             *)
EXTENDS VF
VARIABLES l, st, fails
DataDiff(a, b) ==
  IF a.dt # b.dt THEN {"dtype"} ELSE {}
  \cup If(a.sh = b.sh, "shape")
  \cup (IF a.sh = b.sh /\ a.dt = b.dt THEN If(a.h = b.h, "values") \cup If(a.sl = b.sl, "slab") ELSE {})
SigDiff(a, b) == \* a: reference, b: observed
  If(a.keys = b.keys, "keys")
  \cup (IF Has(a, "data") /\ Has(b, "data") THEN DataDiff(a.data, b.data) ELSE {})
  \cup (IF Has(a, "axh") /\ Has(b, "axh") THEN If(a.axh = b.axh, "axes") ELSE {})
  \cup If(a.md = b.md, "metadata") \cup If(a.om = b.om, "original_metadata")
  \cup If(a.rest = b.rest, "other-fields")
\* known differences of lazy reads, stated in the property
Promoted(e, a, b) == /\ Has(e, "floatimages") /\ e.floatimages /\ a.dt = "<f8"
                     /\ Has(b, "h8") /\ a.sh = b.sh /\ a.h8 = b.h8
ObsDiff(e, a, b) ==
  IF IsErr(a) /\ IsErr(b) THEN If(a.err = b.err, "other-error")
  ELSE IF IsErr(b) THEN IF e.lazy /\ b.err \in {"NotImplementedError", "ValueError"} /\ Has(b, "refused") /\ b.refused
                        THEN {} ELSE {"error-" \o b.err \o "@" \o Get(b, "where", "")}
  ELSE IF IsErr(a) THEN {"no-error"}
  ELSE If(Len(a.sigs) = Len(b.sigs), "number-of-signals")
       \cup (IF Len(a.sigs) # Len(b.sigs) THEN {} ELSE
             UNION {LET x == a.sigs[i]  y == b.sigs[i] IN
                      IF Has(x, "data") /\ Has(y, "data") /\ e.lazy /\ Promoted(e, x.data, y.data)
                      THEN SigDiff([x EXCEPT !.data = y.data], y) ELSE SigDiff(x, y)
                    : i \in 1..Len(a.sigs)})
Laziness(e) == \* a lazy read returns lazy arrays whose description is right
  IF IsErr(e.obs) THEN {}
  ELSE UNION {LET s == e.obs.sigs[i] IN
              IF ~Has(s, "data") THEN {} ELSE
                If(s.data.lazy = e.lazy \/ ~e.mustlazy, "not-lazy")
                \cup If(~Has(s.data, "meta"), "lazy-description")
              : i \in 1..Len(e.obs.sigs)}
Bad(s, e) ==
  CASE e.ev = "ref" -> {}
    [] e.ev = "read" -> ObsDiff(e, s[e.k], e.obs) \cup Laziness(e)
    [] e.ev = "file" -> If(e.same, "file-changed")
    [] e.ev = "open" -> If(e.n = 0, "left-open")
Step(s, e) == IF e.ev = "ref" THEN (e.k :> e.obs) @@ s ELSE s
INSTANCE VFTrace WITH InitSt <- <<>>
=============================================================================
