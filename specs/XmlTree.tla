------------------------------- MODULE XmlTree -------------------------------
(* XML trees and the dictionaries made of them.                               *)
(* A node is [tag, attrs: <<[k, v]>>, text, tail, kids].  A value is           *)
(*   [k |-> "v", v |-> a literal]   (its type and what it is, as a string)    *)
(*   [k |-> "l", x |-> <<values>>]  [k |-> "d", x |-> <<[n |-> key, v |-> value]>>] *)
(* Options o: pre (put before the names of attributes of nodes with children),*)
(* txt (key of text next to other things), flat (tags that are left out, what *)
(* they hold taking their place), mode (text between children), lit: what a   *)
(* string means as a literal (only those that are something else than text).  *)
EXTENDS VF
V(x) == [k |-> "v", v |-> x]
D(x) == [k |-> "d", x |-> x]
L(x) == [k |-> "l", x |-> x]
Nothing == V("none:")
Lit(s, o) == IF s \in DOMAIN o.lit THEN V(o.lit[s]) ELSE V("str:" \o s)
Keys(ps) == {ps[i].n : i \in 1..Len(ps)}
\* the first place of each key, in order
Firsts(ps) == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : \A j \in 1..(i - 1) : ps[j].n # ps[i].n)
Group(ps) ==
  LET f == Firsts(ps) IN
  [i \in 1..Len(f) |->
    LET same == SelectSeq(ps, LAMBDA p : p.n = ps[f[i]].n) IN
    [n |-> ps[f[i]].n, v |-> IF Len(same) = 1 THEN same[1].v ELSE L([j \in 1..Len(same) |-> same[j].v])]]
Attrs(nd, pre, o) == [i \in 1..Len(nd.attrs) |-> [n |-> pre \o nd.attrs[i].k, v |-> Lit(nd.attrs[i].v, o)]]
Between(nd, o) ==
  IF nd.text = "" THEN <<>>
  ELSE CASE o.mode = "skip" -> <<>>
         [] o.mode = "first" \/ (\A i \in 1..Len(nd.kids) : nd.kids[i].tail = "") -> <<[n |-> o.txt, v |-> Lit(nd.text, o)]>>
         [] o.mode = "cat" -> <<[n |-> "#interchild_text", v |-> V("str:" \o FoldLeft(LAMBDA a, b : a \o b.tail, nd.text, nd.kids))]>>
         [] OTHER -> <<[n |-> "#interchild_text", v |-> L(<<V("str:" \o nd.text)>> \o [i \in 1..Len(nd.kids) |-> V("str:" \o nd.kids[i].tail)])]>>
RECURSIVE Value(_, _), Pairs(_, _)
Value(nd, o) ==
  IF Len(nd.kids) > 0
  THEN D(Group(FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in 1..Len(nd.kids) |-> Pairs(nd.kids[i], o)]))
         \o Attrs(nd, o.pre, o) \o Between(nd, o))
  ELSE IF Len(nd.attrs) > 0
  THEN D(Attrs(nd, "", o) \o (IF nd.text = "" THEN <<>> ELSE <<[n |-> o.txt, v |-> Lit(nd.text, o)]>>))
  ELSE IF nd.text = "" THEN Nothing ELSE Lit(nd.text, o)
\* what a node puts in the dictionary of its parent
Pairs(nd, o) ==
  LET v == Value(nd, o) IN
  IF nd.tag \notin {o.flat[i] : i \in 1..Len(o.flat)} THEN <<[n |-> nd.tag, v |-> v]>>
  ELSE IF v.k = "d" THEN v.x
  ELSE IF v = Nothing THEN <<>> ELSE <<[n |-> o.txt, v |-> v]>>
Result(nd, o) == IF nd.tag \in {o.flat[i] : i \in 1..Len(o.flat)} THEN Value(nd, o) ELSE D(Pairs(nd, o))
\* equal up to the order of keys
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "v" -> a.v = b.v
       [] a.k = "l" -> Len(a.x) = Len(b.x) /\ \A i \in 1..Len(a.x) : Same(a.x[i], b.x[i])
       [] OTHER -> /\ Len(a.x) = Len(b.x) /\ Keys(a.x) = Keys(b.x)
                   /\ \A i \in 1..Len(a.x) : \E j \in 1..Len(b.x) : a.x[i].n = b.x[j].n /\ Same(a.x[i].v, b.x[j].v)
\* the leaves of a value: literals other than nothing
RECURSIVE Leaves(_)
Leaves(v) ==
  CASE v.k = "v" -> IF v = Nothing THEN <<>> ELSE <<v.v>>
    [] v.k = "l" -> FoldLeft(LAMBDA a, b : a \o Leaves(b), <<>>, v.x)
    [] OTHER -> FoldLeft(LAMBDA a, b : a \o Leaves(b.v), <<>>, v.x)
RECURSIVE Texts(_)
Texts(nd) == (IF nd.text = "" THEN <<>> ELSE <<nd.text>>) \o [i \in 1..Len(nd.attrs) |-> nd.attrs[i].v]
             \o FoldLeft(LAMBDA a, b : a \o Texts(b), <<>>, nd.kids)
\* ---- the simple conversion (EMPAD): trees in which every node has either
\* text or attributes and children, with distinct tags
RECURSIVE Plain(_)
Plain(nd) ==
  IF nd.text # "" THEN V("str:" \o nd.text)
  ELSE D([i \in 1..Len(nd.attrs) |-> [n |-> nd.attrs[i].k, v |-> V("str:" \o nd.attrs[i].v)]]
         \o [i \in 1..Len(nd.kids) |-> [n |-> nd.kids[i].tag, v |-> Plain(nd.kids[i])]])
\* ---- decimal commas: a text, whole, that is a number with a comma
\* t is a sequence of characters
Dig == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Run(_, _)
Run(t, i) == IF i <= Len(t) /\ t[i] \in Dig THEN Run(t, i + 1) ELSE i
Sign(t, i, s) == IF i <= Len(t) /\ t[i] \in s THEN i + 1 ELSE i
\* the place of the comma, 0 if there is nothing to mend
Comma(t) ==
  LET a == Sign(t, 1, {"-"})  b == Run(t, a) IN
  IF b = a \/ b > Len(t) \/ t[b] # "," THEN 0
  ELSE LET c == Run(t, b + 1)
           d == IF c <= Len(t) /\ t[c] \in {"e", "E"} THEN Run(t, Sign(t, c + 1, {"-", "+"})) ELSE c IN
       IF d = Len(t) + 1 THEN b ELSE 0
Mend(t) == IF Comma(t) = 0 THEN t ELSE [t EXCEPT ![Comma(t)] = "."]
=============================================================================
