----------------------------- MODULE NexusFileTrace -----------------------------
(* Judges what the real reader returned for made NeXus files.                  *)
EXTENDS NexusFile
VARIABLES l, st, fails
Init0 == 0
RECURSIVE Joined(_, _)
Joined(p, sep) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o sep \o Joined(Tail(p), sep)
Bad(s, e) ==
  LET o == e.obs IN
  IF IsErr(o) THEN {"error-" \o o.err}
  ELSE LET w == Signals(e)  g == o.sigs IN
  IF Len(w) # Len(g) THEN {"number-of-signals"}
  ELSE If([i \in 1..Len(w) |-> w[i].id] = [i \in 1..Len(w) |-> g[i].id], IF {w[i].id : i \in 1..Len(w)} = {g[i].id : i \in 1..Len(w)} THEN "order" ELSE "data")
  \cup If(\A i \in 1..Len(w) : w[i].shape = g[i].shape, "shape")
  \cup If(\A i \in 1..Len(w) : Joined(w[i].title, "_") = g[i].title, "title")
  \cup If(\A i \in 1..Len(w) : g[i].file = IF w[i].top = "" THEN e.file ELSE "", "file-name")
  \cup If(\A i \in 1..Len(w) : w[i].axes = g[i].axes, "axes")
  \cup If(\A i \in 1..Len(w) : g[i].lazy = e.lazy, "lazy")
  \cup If(\A i \in 1..Len(w) : MetaOf(e, w[i].top) = Range(g[i].om), "original-metadata")
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=================================================================================
