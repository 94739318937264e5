------------------------------- MODULE NexusFile -------------------------------
(* A NeXus file is a tree of groups and datasets with links among them. The    *)
(* NXdata groups say which of their datasets is a signal and which its axes.   *)
(* A path is a sequence of names; e.names are all names in their order.        *)
EXTENDS VF
\* ---------------------------------------------------------------- tree
\* (paths of another file begin with "@")
At(e, p) == CHOOSE n \in Range(e.nodes) : n.path = p
Exists(e, p) == \E n \in Range(e.nodes) : n.path = p
\* what a name in a group stands for: the node, or where the link leads
Target(e, p) == LET n == At(e, p) IN IF n.t = "link" THEN n.to ELSE p
IsLink(e, p) == At(e, p).t = "link"
\* everything below group g, in order, as [shown |-> path, real |-> path, in |-> group]; links to nothing are left out
RECURSIVE Walk(_, _, _, _)
Walk(e, real, shown, hard) ==
  FlattenSeq([i \in 1..Len(e.names) |->
    LET p == Append(real, e.names[i])  q == Append(shown, e.names[i]) IN
    IF ~Exists(e, p) THEN <<>>
    ELSE IF IsLink(e, p) /\ (hard \/ ~Exists(e, Target(e, p))) THEN <<>>
    ELSE LET n == Target(e, p) IN <<[shown |-> q, real |-> n, in |-> real]>> \o (IF At(e, n).t = "group" THEN Walk(e, n, q, hard) ELSE <<>>)])
\* ---------------------------------------------------------------- what is a signal
Prod(s) == FoldSeq(LAMBDA x, y : x * y, 1, s)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
IsNXdata(n) == n.t = "group" /\ n.cls = "NXdata" /\ n.signal # ""
IsArray(n) == n.t = "data" /\ n.kind = "num" /\ Prod(n.shape) >= 2
\* the dataset a group has for signal ("#": in the manner of old files)
SignalOf(g) == IF g.signal = "#" THEN "data" ELSE g.signal
\* ---------------------------------------------------------------- selection
\* a key matches a path if its text is in the one of the path; tab tells which names have which text
Rel(e, how, part) == LET r == CHOOSE r \in Range(e.tab) : r.how = how /\ r.part = part IN Range(r.names)
InPath(e, p, key) ==
  LET k == Len(key) IN
  IF k = 1 THEN \E i \in 1..Len(p) : p[i] \in Rel(e, "in", key[1])
  ELSE \E i \in 0..(Len(p) - k) : (p[i + 1] \in Rel(e, "ends", key[1])) /\ (p[i + k] \in Rel(e, "starts", key[k])) /\ (\A j \in 2..(k - 1) : p[i + j] = key[j])
Rooted(p) == <<"">> \o p
RECURSIVE Once(_, _)
Once(s, seen) == IF s = <<>> THEN <<>> ELSE IF s[1] \in seen THEN Once(SubSeq(s, 2, Len(s)), seen) ELSE <<s[1]>> \o Once(SubSeq(s, 2, Len(s)), seen \cup {s[1]})
\* those of given paths come first, then those of the keys, as these are ordered
Selected(e, all) ==
  IF e.keys = <<>> /\ e.paths = <<>> THEN all
  ELSE Once(FlattenSeq([i \in 1..Len(e.paths) |-> SelectSeq(all, LAMBDA x : x.shown = e.paths[i])])
            \o FlattenSeq([i \in 1..Len(e.keys) |-> SelectSeq(all, LAMBDA x : InPath(e, Rooted(x.shown), e.keys[i]))]), {})
\* ---------------------------------------------------------------- default
Root(e) == At(e, <<>>)
Tops(e) == {n.path[1] : n \in {n \in Range(e.nodes) : Len(n.path) = 1 /\ n.path[1] # "@" /\ n.t # "link" /\ ~(n.t = "group" /\ n.cls = "NXdata")}}
\* without attributes, none of the tops can be meant
DefaultEntry(e) == IF ~Root(e).attrs THEN "" ELSE IF Root(e).default # "" THEN Root(e).default ELSE IF Cardinality(Tops(e)) = 1 THEN CHOOSE t \in Tops(e) : TRUE ELSE ""
Default(e) ==
  LET t == DefaultEntry(e) IN
  IF t = "" \/ ~Exists(e, <<t>>) THEN <<>> ELSE IF At(e, <<t>>).t # "group" \/ At(e, <<t>>).cls = "NXdata" \/ At(e, <<t>>).default = "" THEN <<>> ELSE <<t, At(e, <<t>>).default>>
\* ---------------------------------------------------------------- what is returned
AllNX(e, hard) == SelectSeq(Walk(e, <<>>, <<>>, hard), LAMBDA x : IsNXdata(At(e, x.real)))
AllArrays(e, hard) == SelectSeq(Walk(e, <<>>, <<>>, hard), LAMBDA x : IsArray(At(e, x.real)))
\* the signals of groups are read with these
Redundant(e, x) == LET g == At(e, x.in) IN g.t = "group" /\ g.signal = Name(x.shown)
TheDefault(e) == IF ~e.usedefault THEN <<>> ELSE LET d == Default(e) IN IF d = <<>> THEN <<>> ELSE SelectSeq(AllNX(e, FALSE), LAMBDA x : x.shown = d)
Groups(e) == LET d == TheDefault(e) IN IF d # <<>> THEN d ELSE Selected(e, AllNX(e, e.hard))
Arrays(e) == IF TheDefault(e) # <<>> \/ e.nxonly THEN <<>> ELSE SelectSeq(Selected(e, AllArrays(e, e.hard)), LAMBDA x : ~Redundant(e, x))
\* ---------------------------------------------------------------- axes
\* a is [name, kind, units, off, step, n]; uneven values or texts are replaced by indices
Axis(a, i, n) ==
  [i |-> i - 1, n |-> n, name |-> a.name] @@
  (CASE a.kind = "even" -> [off |-> a.off, scale |-> IF n = 1 THEN "one" ELSE ToString(a.step), units |-> a.units]
     [] OTHER -> [off |-> 0, scale |-> "one", units |-> "none"])
NoAxis(i, n) == [i |-> i - 1, n |-> n, name |-> "", off |-> 0, scale |-> "one", units |-> ""]
Interpreted(g, m, i, nav) == CASE g.interp = "" -> nav [] g.interp = "spectrum" -> i # m [] g.interp = "image" -> i < m - 1 [] OTHER -> TRUE
AxesOf(g, shape) ==
  [i \in 1..Len(shape) |->
     LET none == ~g.hasaxes \/ i > Len(g.axes)
         dot == none \/ g.axes[i].kind = "." IN
     (IF dot THEN NoAxis(i, shape[i]) ELSE Axis(g.axes[i], i, shape[i])) @@ [nav |-> Interpreted(g, Len(shape), i, IF g.hasaxes THEN ~dot ELSE TRUE)]]
\* other datasets of the group have axes if they are as large as the signal
Beside(e, x) ==
  LET g == At(e, x.in)  n == At(e, x.real)  s == Append(g.path, SignalOf(g)) IN
  IF ~g.hasaxes \/ (g.signal # "" /\ Exists(e, s) /\ ~IsLink(e, s) /\ At(e, s).shape # n.shape) THEN <<>>
  ELSE AxesOf([g EXCEPT !.interp = ""], n.shape)
Signals(e) ==
  LET gs == Groups(e)  as == Arrays(e) IN
  [i \in 1..Len(gs) |->
     LET g == At(e, gs[i].real)  n == At(e, Target(e, Append(g.path, SignalOf(g)))) IN
     [id |-> n.id, shape |-> n.shape, title |-> <<Name(gs[i].shown)>>, axes |-> AxesOf(g, n.shape), top |-> gs[i].shown[1]]]
  \o [i \in 1..Len(as) |->
     LET n == At(e, as[i].real) IN [id |-> n.id, shape |-> n.shape, title |-> as[i].shown, axes |-> Beside(e, as[i]), top |-> ""]]
\* ---------------------------------------------------------------- metadata
\* a name that stands for a method of dictionaries is altered
Fixed(e, n) == IF n \in Range(e.reserved) THEN "fix_" \o n ELSE n
FixedPath(e, p) == [i \in 1..Len(p) |-> Fixed(e, p[i])]
Meta(e) ==
  LET all == Walk(e, <<>>, <<>>, FALSE)
      out == {x.shown : x \in {x \in Range(all) : At(e, x.real).t = "group" /\ At(e, x.real).cls = "NXdata"}}
      w == SelectSeq(<<[shown |-> <<>>, real |-> <<>>, in |-> <<>>]>> \o all, LAMBDA x : \A k \in 1..Len(x.shown) : SubSeq(x.shown, 1, k) \notin out) IN
  UNION {LET x == w[i]  n == At(e, x.real)  p == FixedPath(e, x.shown) IN
         (IF n.t = "group" THEN {[p |-> p \o <<"attrs", Fixed(e, a.k)>>, v |-> a.v] : a \in Range(n.at)}
          ELSE {[p |-> p \o <<"attrs", a.k>>, v |-> a.v] : a \in Range(n.at)}
               \cup (IF e.skiparrays /\ n.shape # <<>> THEN {} ELSE {[p |-> IF n.at = <<>> THEN p ELSE Append(p, "value"), v |-> n.v]}))
         : i \in 1..Len(w)}
\* an NXdata group has that of its entry, or what was asked for
MetaOf(e, top) ==
  IF top = "" THEN {}
  ELSE IF ~Exists(e, <<top>>) \/ At(e, Target(e, <<top>>)).cls = "NXdata" THEN {}
  ELSE IF e.mkeys = <<>> THEN {[p |-> Tail(x.p), v |-> x.v] : x \in {x \in Meta(e) : x.p[1] = Fixed(e, top)}}
  ELSE {x \in Meta(e) : \E i \in 1..Len(e.mkeys) : InPath(e, x.p, e.mkeys[i])}
================================================================================
