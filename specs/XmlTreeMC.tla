------------------------------ MODULE XmlTreeMC ------------------------------
(* Every small tree of two levels under a root, with every option: nothing is *)
(* lost - every text and every attribute is in the result, once -, and keys   *)
(* are never given twice.                                                     *)
EXTENDS XmlTree
CONSTANTS MaxKids
VARIABLES root, o
vars == <<root, o>>
Node(t, a, x, y, k) == [tag |-> t, attrs |-> a, text |-> x, tail |-> y, kids |-> k]
As == {<<>>, <<[k |-> "p", v |-> "1"]>>}
Leaf == {Node(t, a, x, y, <<>>) : t \in {"a", "b"}, a \in As, x \in {"", "t"}, y \in {"", "z"}}
Init == /\ \E a \in As, x \in {"", "t"} : root = Node("r", a, x, "", <<>>)
        /\ o \in [pre : {"@"}, txt : {"#"}, flat : {<<>>, <<"a">>, <<"a", "m">>}, mode : {"skip", "first", "cat", "list"},
                  lit : {("1" :> "int:1")}]
Add == /\ Len(root.kids) < MaxKids
       /\ \/ \E n \in Leaf : root' = [root EXCEPT !.kids = Append(@, n)]
          \/ \E n \in Leaf, a \in As : root' = [root EXCEPT !.kids = Append(@, Node("m", a, "", "", <<n>>))]
       /\ UNCHANGED o
Spec == Init /\ [][Add]_vars
R == Result(root, o)
Number(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* attributes are all there; texts too unless between children and skipped
AttributesKept == Number(Leaves(R), "int:1") = Number(Texts(root), "1")
TextsKept == (o.mode = "first") => Number(Leaves(R), "str:t") = Number(Texts(root), "t")
RECURSIVE Distinct(_)
Distinct(v) ==
  CASE v.k = "v" -> TRUE
    [] v.k = "l" -> \A i \in 1..Len(v.x) : Distinct(v.x[i])
    [] OTHER -> Cardinality(Keys(v.x)) = Len(v.x) /\ \A i \in 1..Len(v.x) : Distinct(v.x[i].v)
KeysDistinct == o.flat = <<>> => Distinct(R)
ItselfSame == Same(R, R)
=============================================================================
