------------------------------ MODULE DmTagsMC ------------------------------
(* Every small tree of tags: the path of a value found by reading the file    *)
(* with a stack is the one it has in the tree, and two tags with different    *)
(* names (or none) never get the same path.                                   *)
EXTENDS DmTags
CONSTANTS MaxTags
VARIABLES t
vars == <<t>>
Names == {<<"">>, <<"a">>, <<"b", "c">>}
Init == t = <<>>
Add == /\ Len(t) < MaxTags
       /\ \E d \in 0..3, nm \in Names, k \in {"g", "l"} :
            /\ IF Len(t) = 0 THEN d = 0 ELSE d <= t[Len(t)].d + (IF t[Len(t)].k = "g" THEN 1 ELSE 0)
            \* names are not repeated within a group
            /\ LET u == Append(t, [d |-> d, nm |-> nm, k |-> k, v |-> ToString(Len(t)), n |-> 0]) IN
                 /\ nm # <<"">> => \A j \in Siblings(u, Len(u)) \ {Len(u)} : u[j].nm # nm
                 /\ t' = u
Next == Add
Spec == Init /\ [][Next]_vars
Agree == Machine(t) = Items(t)
NamesUnique == Cardinality({Path(t, i) : i \in 1..Len(t)}) = Len(t)
=============================================================================
