---------------------------- MODULE UnpicklerTrace ----------------------------
(* Judges what reading files did besides giving data: ran (texts of the file   *)
(* evaluated, functions and modules reached that only the file names).         *)
EXTENDS Unpickler
VARIABLES l, st, fails
Init0 == 0
Bad(s, e) ==
  If(e.obs.ran = <<>>, "code-run")
  \cup (CASE e.ev = "program" -> If(Allows(Run(e.prog), e.obs.got), "outcome")
          [] e.ev = "pickled" -> If(e.obs.got = e.expect, "outcome")
          [] e.ev = "content" -> If(e.obs.got = "stop", "refused") \cup If(e.obs.same, "content")
          [] OTHER -> {})
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
