----------------------------- MODULE HelpersTrace -----------------------------
(* Judges histories of calls of the real helpers.                              *)
EXTENDS Helpers
VARIABLES l, st, fails
Init0 == [fs |-> [q \in {} |-> "x"], tree |-> [q \in {} |-> 0]]
Fs(e) == [p \in {e.fs[i].p : i \in 1..Len(e.fs)} |-> (CHOOSE x \in {e.fs[i] : i \in 1..Len(e.fs)} : x.p = p).kind]
\* the files after the event
After(s, e) ==
  CASE e.ev = "start" -> [q \in {} |-> "x"]
    [] e.ev \in {"touch", "mkdir"} -> Make(s.fs, e.path, IF e.ev = "touch" THEN "file" ELSE "dir")
    [] e.ev = "ensure" -> IF Exists(s.fs, e.path) /\ s.fs[e.path] = "file" THEN s.fs ELSE Ensured(s.fs, e.parents, e.path)
    [] OTHER -> s.fs
BadPath(s, e) ==
  If(Fs(e) = After(s, e), "files-changed")
  \cup (CASE e.ev = "inc" -> If(e.obs = Incremental(s.fs, e), "new-name")
          [] e.ev = "append" -> If(e.obs = e.dir \o e.stem \o e.add \o e.suf, "appended-name")
          [] e.ev = "ask" -> If(e.obs.yes = Overwrites(s.fs, e.path, e.suf, e.answers), "overwrite") \cup If(e.obs.asked = Asked(s.fs, e.path, e.suf, e.answers), "questions")
          [] e.ev = "ensure" -> If(e.obs.ok = ~Blocked(s.fs, e.parents), "directory")
          [] OTHER -> {})
BadDate(e) ==
  CASE e.ev = "toserial" -> If(Within(e.obs, Serial(e.t), 2), "serial")
    [] e.ev = "fromserial" -> If(Within(Serial(e.obs), e.at, 2), "datetime")
    [] e.ev = "local" -> If(Within(Serial(e.obs.t), e.at, 2), "local-time") \cup If(Within(e.obs.back, e.at, 3), "local-back")
    [] e.ev = "filetime" -> If(LET a == At(e.obs) IN a = [e.at EXCEPT !.day = @ + FileOrigin], "filetime")
    [] OTHER -> If(e.obs.text = Meta(e), "metadata-" \o e.form)
BadTree(s, e) == IF e.ev = "new" THEN {} ELSE
  LET t == CASE e.ev = "set" -> SetItem(s.tree, e.p, e.v) [] e.ev = "node" -> AddNode(s.tree, e.p) [] OTHER -> s.tree IN
  If({[p |-> p, v |-> t[p]] : p \in DOMAIN t} = {e.obs.tree[i] : i \in 1..Len(e.obs.tree)}, "tree-" \o e.ev)
  \cup (IF e.ev = "has" THEN If(e.obs.has = HasItem(s.tree, e.p), "has_item") ELSE {})
BadColour(e) ==
  IF e.bad # "" THEN If(IsErr(e.obs) /\ e.obs.err = "ValueError", "not-refused")
  ELSE IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE If(e.obs.flat = e.flat, "values") \cup If(e.obs.shape = (IF e.to = "rgb" THEN e.shape ELSE e.shape \o <<e.ch>>), "shape")
       \cup If(e.obs.kind = (IF e.to = "rgb" THEN (IF e.ch = 3 THEN "rgb" ELSE "rgba") \o ToString(e.bits) ELSE IF e.plot /\ e.bits = 16 THEN "float64" ELSE "uint" \o ToString(e.bits)), "kind")
       \cup If(e.obs.same, "input-changed") \cup If(e.obs.lazy = (e.lazy /\ e.to = "rgb"), "lazy")
BadNpy(e) == IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
             ELSE If(e.obs.offset = e.size - e.nbytes, "offset") \cup If(e.obs.shape = e.shape, "shape") \cup If(e.obs.dtype = e.dtype, "dtype") \cup If(e.obs.pos = e.obs.offset, "position")
Bad(s, e) ==
  CASE e.sys = "path" -> BadPath(s, e)
    [] e.sys = "colour" -> BadColour(e)
    [] e.sys = "npy" -> BadNpy(e)
    [] IsErr(e.obs) -> {"error-" \o e.obs.err}
    [] e.sys = "date" -> BadDate(e)
    [] OTHER -> BadTree(s, e)
Step(s, e) ==
  CASE e.sys = "path" -> [s EXCEPT !.fs = After(s, e)]
    [] e.sys = "tree" -> [s EXCEPT !.tree = CASE e.ev = "new" -> Init0.tree [] e.ev = "set" -> SetItem(s.tree, e.p, e.v) [] e.ev = "node" -> AddNode(s.tree, e.p) [] OTHER -> s.tree]
    [] OTHER -> s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
