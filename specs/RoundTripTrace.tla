--------------------------- MODULE RoundTripTrace ---------------------------
(* A signal written to a file and read back.  e.in / e.out hold the same     *)
(* named parts (data, axes, metadata, ...); every part has to be the same.   *)
EXTENDS Tree
VARIABLES l, st, fails
Bad(s, e) ==
  IF IsErr(e.out) THEN {"error-" \o e.out.err \o "@" \o Get(e.out, "where", "")}
  ELSE UNION { IF p \in DOMAIN e.out
                 THEN If(Same(e.in[p], e.out[p]), p \o ":" \o Diff(e.in[p], e.out[p]))
                 ELSE {p \o "-missing"} : p \in DOMAIN e.in }
       \cup If(\A p \in DOMAIN e.out : p \in DOMAIN e.in, "extra-part")
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- 0
=============================================================================
