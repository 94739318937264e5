---------------------------- MODULE FormatsTrace ----------------------------
(* Signals written by the real writers and read back.                        *)
EXTENDS Formats
VARIABLES l, st, fails
Tol(e) == IF e.fmt = "blockfile" /\ e.o.scaling # "" THEN 64 ELSE 0
Bad(s, e) ==
  LET w == Expected(e.fmt, e.in, e.o) IN
  (IF e.ev # "rt" \/ Has(w, "unspecified") THEN {}
   ELSE IF Has(w, "rejected") THEN If(IsErr(e.out) /\ e.out.stage = "write" /\ e.out.err \in {"OSError", "ValueError", "TypeError"}, "accepted")
   ELSE IF Has(w, "knownerror") THEN If(~IsErr(e.out), w.knownerror)
   ELSE IF IsErr(e.out) THEN {e.out.stage \o "-" \o e.out.err}
   ELSE Known(e.fmt, e.in, Same(w, e.out, Tol(e))))
  \* saving is a function of the signal, which it leaves alone
  \cup (IF e.ev = "pure" THEN
          (IF IsErr(e.out) THEN {} ELSE
             If(e.out.same, "signal-changed") \cup If(e.out.kwsame, "arguments-changed") \cup If(e.out.repeat, "second-save-differs")
             \cup If(e.out.after, "depends-on-earlier-saves")) ELSE {})
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- 0
=============================================================================
