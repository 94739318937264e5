------------------------------- MODULE JeolFiles -------------------------------
(* The tags of JEOL's .img, .map and .asw files as dictionaries; spectra       *)
(* (.eds); the files of a workspace.                                           *)
(* A tag: name, k(ind), v (sequence of texts), kids.                           *)
EXTENDS VF
RECURSIVE JoinWith(_, _)
JoinWith(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinWith(SubSeq(s, 2, Len(s)), sep)
\* a single value, or all of them
ValueOf(t) == IF Len(t.v) = 1 THEN t.v[1] ELSE JoinWith(t.v, "|")
NameOf(t) == IF t.k = "page" THEN t.name \o "_" \o ValueOf(t) ELSE t.name
\* the value that a tag with tags inside keeps beside them
Beside(t) == CASE t.k = "count" -> <<[name |-> "value", k |-> "leaf", v |-> t.v, kids |-> <<>>]>>
               [] t.k = "index" -> <<[name |-> "index", k |-> "leaf", v |-> t.v, kids |-> <<>>]>>
               [] OTHER -> <<>>
\* tags of the same name: the last one
Effective(ts) == {i \in 1..Len(ts) : ts[i].k # "limits" /\ ~\E j \in i + 1..Len(ts) : ts[j].k # "limits" /\ NameOf(ts[j]) = NameOf(ts[i])}
RECURSIVE Entries(_, _)
Entries(ts, path) ==
  UNION {LET t == ts[i]  p == Append(path, NameOf(t)) IN
         IF t.k = "leaf" THEN {[p |-> p, v |-> ValueOf(t)]}
         ELSE {[p |-> p, v |-> "{}"]} \cup Entries(Beside(t) \o t.kids, p) : i \in Effective(ts)}
\* the files of a workspace: sample after sample, view after view
Supported == {"img", "map", "eds", "pts"}
Files(samples) == FlattenSeq([i \in 1..Len(samples) |-> FlattenSeq([j \in 1..Len(samples[i]) |-> SelectSeq(samples[i][j], LAMBDA f : f.ext \in Supported)])])
================================================================================
