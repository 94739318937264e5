------------------------------- MODULE DmTags -------------------------------
(* Gatan DM3/DM4 files: a tree of tags (groups and values), each named or    *)
(* not, written depth first.  A node is [d: depth, nm: pieces of its name     *)
(* between the dots, k: "g" or "l", v: value, n: number].                     *)
EXTENDS VF
Parent(t, i) == IF t[i].d = 0 THEN 0 ELSE CHOOSE j \in 1..(i-1) : t[j].d = t[i].d - 1 /\ \A m \in (j+1)..(i-1) : t[m].d > t[j].d
Siblings(t, i) == {j \in 1..Len(t) : t[j].d = t[i].d /\ Parent(t, j) = Parent(t, i)}
RECURSIVE Joined(_)
Joined(p) == IF Len(p) = 0 THEN "" ELSE p[1] \o Joined(Tail(p))
\* dots are removed from names; unnamed tags are numbered among those of their kind in the group
Name(t, i) ==
  LET nm == Joined(t[i].nm) IN
  IF nm # "" THEN nm
  ELSE LET k == Cardinality({j \in Siblings(t, i) : j < i /\ t[j].k = t[i].k /\ Joined(t[j].nm) = ""}) IN
       (IF t[i].k = "g" THEN "TagGroup" ELSE "Data") \o ToString(k)
RECURSIVE Path(_, _)
Path(t, i) == IF i = 0 THEN <<>> ELSE Append(Path(t, Parent(t, i)), Name(t, i))
\* values (and empty groups) of the tree, each with its path
IsItem(t, i) == t[i].k = "l" \/ i = Len(t) \/ t[i+1].d <= t[i].d
Value(t, i) == IF t[i].k = "g" THEN "{}" ELSE t[i].v
Items(t) == {[p |-> Path(t, i), v |-> Value(t, i)] : i \in {j \in 1..Len(t) : IsItem(t, j)}}
\* --- the same with the stack machine of a reader ---------------------------
\* state: stack of open groups [path, groups seen unnamed, values seen unnamed, remaining], items
Open(path) == [path |-> path, ug |-> 0, ul |-> 0]
ReadTag(stk, n) == \* the stack is cut to the depth of the tag
  LET s == Sub(stk, 1, n.d + 1)  top == s[Len(s)]
      nm == Joined(n.nm)
      name == IF nm # "" THEN nm ELSE IF n.k = "g" THEN "TagGroup" \o ToString(top.ug) ELSE "Data" \o ToString(top.ul)
      top2 == IF nm # "" THEN top ELSE IF n.k = "g" THEN [top EXCEPT !.ug = @ + 1] ELSE [top EXCEPT !.ul = @ + 1]
      s2 == [s EXCEPT ![Len(s)] = top2] IN
  [stk |-> IF n.k = "g" THEN Append(s2, Open(Append(top.path, name))) ELSE s2,
   item |-> [p |-> Append(top.path, name), v |-> IF n.k = "g" THEN "{}" ELSE n.v]]
RECURSIVE ReadAll(_, _, _)
ReadAll(t, i, st) ==
  IF i > Len(t) THEN st
  ELSE LET x == ReadTag(st.stk, t[i]) IN
    ReadAll(t, i + 1, [stk |-> x.stk, items |-> (st.items \ {[p |-> Sub(x.item.p, 1, Len(x.item.p) - 1), v |-> "{}"]}) \cup {x.item}])
Machine(t) == ReadAll(t, 1, [stk |-> <<Open(<<>>)>>, items |-> {}]).items
\* --- trees and subtrees --------------------------------------------------
\* last node of the subtree of i
RECURSIVE LastOf(_, _, _)
LastOf(t, d, j) == IF j > Len(t) THEN j - 1 ELSE IF t[j].d <= d THEN j - 1 ELSE LastOf(t, d, j + 1)
Subtree(t, i) == [k \in 1..(LastOf(t, t[i].d, i + 1) - i) |-> [t[i+k] EXCEPT !.d = @ - t[i].d - 1]]
\* children of the root, and the child of that name
Tops(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i: t[i].d = 0)
\* (names of the format itself are given as one piece)
Child(t, nm) == {i \in 1..Len(t) : t[i].d = 0 /\ t[i].nm = <<nm>>}
RECURSIVE Descend(_, _)
Descend(t, path) == \* the subtree at that path (empty if there is none)
  IF Len(path) = 0 THEN t
  ELSE IF Child(t, path[1]) = {} THEN <<>> ELSE Descend(Subtree(t, CHOOSE i \in Child(t, path[1]) : TRUE), Tail(path))
HasItem(t, path) == Child(Descend(t, Front(path)), Last(path)) # {}
NodeOf(t, path) == LET u == Descend(t, Front(path)) IN u[CHOOSE i \in Child(u, Last(path)) : TRUE]
ItemAt(t, path, dflt) == IF HasItem(t, path) THEN NodeOf(t, path).v ELSE dflt
\* groups in a group, in order
Groups(t) == LET g == SelectSeq(Tops(t), LAMBDA i: t[i].k = "g") IN [k \in 1..Len(g) |-> Subtree(t, g[k])]
\* images of the list but those of the thumbnails
Thumbs(t) == {NodeOf(g, <<"ImageIndex">>).n : g \in Range(Groups(Descend(t, <<"Thumbnails">>)))}
=============================================================================
