---------------------------- MODULE HierStoreMC ----------------------------
EXTENDS HierStore
VARIABLES g, last, n
Init == g = Empty /\ last = "absent" /\ n = 0
Next == n < 3 /\ \E v \in Kinds : g' = Write(g, v) /\ last' = v /\ n' = n + 1
Spec == Init /\ [][Next]_<<g, last, n>>
ReadsLastWritten == Read(g) = last
OneRepresentation ==
  last # "absent" => Cardinality(DOMAIN g.attrs) + Cardinality(DOMAIN g.items) = 1
\* the names determine the kind of container
Injective == \A u, v \in Kinds : Name(u) = Name(v) /\ Sort(u) = Sort(v) =>
     \/ u = v \/ {u, v} \subseteq Scalars \/ {u, v} \subseteq {"arr1", "arr2"}
     \/ {u, v} \subseteq {"lflat1", "lflat2"}
=============================================================================
