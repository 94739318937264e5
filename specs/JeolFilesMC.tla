------------------------------ MODULE JeolFilesMC ------------------------------
EXTENDS JeolFiles
CONSTANTS N
VARIABLES t, stage
vars == <<t, stage>>
Leaf(n, v) == [name |-> n, k |-> "leaf", v |-> v, kids |-> <<>>]
Leaves == {Leaf(n, v) : n \in {"a", "b"}, v \in {<<"1">>, <<"2", "3">>}} \cup {[Leaf("Limits", <<"9">>) EXCEPT !.k = "limits"]}
Lists(S, k) == UNION {[1..j -> S] : j \in 0..k}
Nodes == {[name |-> n, k |-> k, v |-> <<"7">>, kids |-> kids] : n \in {"a", "c"}, k \in {"node", "page", "count", "index"}, kids \in Lists(Leaves, 1)}
Init == t = <<>> /\ stage = 0
Next == stage < N /\ stage' = stage + 1 /\ \E x \in Leaves \cup Nodes : t' = Append(t, x)
Spec == Init /\ [][Next]_vars
E == Entries(t, <<>>)
\* one value for each path; what is above a path is a node
Unique == \A x, y \in E : x.p = y.p => x = y
Rooted == \A x \in E : Len(x.p) > 1 => [p |-> SubSeq(x.p, 1, Len(x.p) - 1), v |-> "{}"] \in E
\* the last tag is there with all it has; no tag is missing
Latest == t # <<>> => LET x == t[Len(t)] IN x.k # "limits" =>
   /\ [p |-> <<NameOf(x)>>, v |-> IF x.k = "leaf" THEN ValueOf(x) ELSE "{}"] \in E
   /\ x.k # "leaf" => \A e \in Entries(Beside(x) \o x.kids, <<NameOf(x)>>) : e \in E
Every == \A i \in 1..Len(t) : t[i].k # "limits" => \E x \in E : x.p = <<NameOf(t[i])>>
NoLimits == \A x \in E : x.p[Len(x.p)] # "Limits"
=============================================================================
