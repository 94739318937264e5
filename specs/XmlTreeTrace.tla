----------------------------- MODULE XmlTreeTrace -----------------------------
(* Judges the conversions of XML of rsciio.utils.xml.                          *)
EXTENDS XmlTree
VARIABLES l, st, fails
Init0 == 0
Bad(s, e) ==
  IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE CASE e.ev = "dict" -> If(Same(e.obs.v, Result(e.node, e.o)), "content") \cup If(e.obs.again, "differs-second-time")
         [] e.ev = "plain" -> If(Same(e.obs.v, D(<<[n |-> e.node.tag, v |-> Plain(e.node)]>>)), "content")
         [] e.ev = "comma" -> If(e.obs.t = [i \in 1..Len(e.t) |-> Mend(e.t[i])], "decimal-comma") \cup If(e.obs.rest, "something-else-changed")
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
