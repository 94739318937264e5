----------------------------- MODULE HierStore -----------------------------
(* How a tree is laid out in a hierarchical file (attributes, datasets and   *)
(* groups whose names carry the container type), how it is read back, and    *)
(* what has to be removed when a key is written again.                        *)
(* One key is modelled; its value is one of the kinds below.                  *)
EXTENDS VF
CONSTANT Drop          \* TRUE: the writer removes the previous representation
Scalars == {"none", "s1", "s2"}
Kinds == Scalars \cup {"l0", "t0", "lflat1", "lflat2", "lnest2", "lnest3",
                       "tflat", "tnest2", "dict", "arr1", "arr2", "bytes0"}
\* the name and the sort of item a kind is stored under
Name(v) == CASE v \in Scalars -> "k" [] v = "dict" -> "k" [] v \in {"arr1", "arr2"} -> "k"
             [] v = "l0" -> "_list_empty_k" [] v = "t0" -> "_tuple_empty_k"
             [] v = "bytes0" -> "_bs_k"
             [] v \in {"lflat1", "lflat2"} -> "_list_k" [] v = "tflat" -> "_tuple_k"
             [] v = "lnest2" -> "_list_2_k" [] v = "lnest3" -> "_list_3_k"
             [] v = "tnest2" -> "_tuple_2_k"
Sort(v) == CASE v \in Scalars \cup {"l0", "t0", "bytes0"} -> "attr"
             [] v = "dict" \/ v \in {"lnest2", "lnest3", "tnest2"} -> "group"
             [] OTHER -> "dataset"
\* a store: the attributes and the items under each name
Empty == [attrs |-> <<>>, items |-> <<>>]
ItemNames == <<"_list_2_k", "_list_3_k", "_list_k", "_tuple_2_k", "_tuple_k", "k">>
AttrNames == <<"_bs_k", "_list_empty_k", "_tuple_empty_k", "k">>
Set(f, n, v) == (n :> v) @@ f
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Write(g, v) ==
  LET n == Name(v)
      g1 == IF Sort(v) = "attr" THEN [g EXCEPT !.attrs = Set(@, n, v)]
                               ELSE [g EXCEPT !.items = Set(@, n, v)]
      all == {AttrNames[i] : i \in 1..Len(AttrNames)} \cup {ItemNames[i] : i \in 1..Len(ItemNames)}
  IN IF ~Drop THEN g1
     ELSE [attrs |-> Del(g1.attrs, IF Sort(v) = "attr" THEN all \ {n} ELSE all),
           items |-> Del(g1.items, IF Sort(v) = "attr" THEN all ELSE all \ {n})]
\* attributes first, then the items in alphabetical order; the last one wins
Read(g) ==
  LET a == SelectSeq(AttrNames, LAMBDA n: n \in DOMAIN g.attrs)
      i == SelectSeq(ItemNames, LAMBDA n: n \in DOMAIN g.items)
      s == [j \in 1..Len(a) |-> g.attrs[a[j]]] \o [j \in 1..Len(i) |-> g.items[i[j]]]
  IN IF s = <<>> THEN "absent" ELSE s[Len(s)]
=============================================================================
