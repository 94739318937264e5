------------------------------ MODULE HelpersMC ------------------------------
(* Every history of a few operations on files and trees; every day of some     *)
(* centuries.                                                                  *)
EXTENDS Helpers
CONSTANTS Depth, LastYear
VARIABLES mode, fs, tree, n, day
vars == <<mode, fs, tree, n, day>>
Empty == [q \in {} |-> "x"]
File(i) == [dir |-> "", stem |-> "a", suf |-> ".h", i |-> i]
Stems == {"a", "b"}
Keys == {"a", "b"}
Paths == {<<k>> : k \in Keys} \cup {<<k, j>> : k \in Keys, j \in Keys} \cup {<<"a", "b", k>> : k \in Keys}
Init == /\ fs = Empty /\ tree = Empty /\ n = 0 /\ mode \in {"files", "tree", "dates"} /\ day = [y |-> 1597, m |-> 12, d |-> 31]
Next ==
  \/ /\ mode = "files" /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<mode, tree, day>>
     /\ \/ \E s \in Stems, i \in 1..2, k \in {"file", "dir"} : fs' = Make(fs, Incremental(fs, [dir |-> "", stem |-> s, suf |-> ".z", i |-> i]), k)
        \/ \E p \in {"a.z", "b.z"} : fs' = Ensured(fs, <<p>>, p \o "/c")
  \/ /\ mode = "tree" /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<mode, fs, day>>
     /\ \/ \E p \in Paths, v \in {5, None} : CanSet(tree, p) /\ tree' = SetItem(tree, p, v)
        \/ \E p \in Paths : CanSet(tree, Append(p, "x")) /\ tree' = AddNode(tree, p)
  \/ /\ mode = "dates" /\ day.y < LastYear /\ UNCHANGED <<mode, fs, tree, n>>
     /\ day' = IF day.d < MonthDays(day.y, day.m) THEN [day EXCEPT !.d = @ + 1]
               ELSE IF day.m < 12 THEN [day EXCEPT !.d = 1, !.m = @ + 1] ELSE [y |-> day.y + 1, m |-> 1, d |-> 1]
Spec == Init /\ [][Next]_vars
\* the name given is new, and the first that is
NewName == mode = "files" => \A s \in Stems, i \in 1..2 :
  LET e == [dir |-> "", stem |-> s, suf |-> ".z", i |-> i]  p == Incremental(fs, e) IN
  p \notin DOMAIN fs /\ (p # s \o ".z" => \A k \in i..(i + n) : Numbered(e, k) = p \/ Numbered(e, k) \in DOMAIN fs \/ \E j \in i..k : Numbered(e, j) = p)
\* nothing is overwritten without a yes
Asking == mode = "files" => \A p \in DOMAIN fs, as \in {<<>>, <<"y">>, <<"n">>, <<"", "y">>, <<"x", "n", "y">>} :
  Overwrites(fs, p, ".z", as) /\ fs[p] = "file" => as # <<>> /\ as[Asked(fs, p, ".z", as)] = "y"
\* directories are complete, twice is the same
Complete == mode = "files" => \A p \in {"a.z", "b.z"} :
  LET f == Ensured(fs, <<p>>, p \o "/c") IN Ensured(f, <<p>>, p \o "/c") = f /\ \A q \in DOMAIN fs : f[q] = fs[q]
\* a tree has its nodes; no value is lost but the one replaced
Tree == mode = "tree" => \A p \in DOMAIN tree : \A q \in Above(p) : q \in DOMAIN tree /\ tree[q] = Node
Kept == [][mode = "tree" => \A p \in DOMAIN tree : (tree[p] = 5 /\ ~(p \in DOMAIN tree' /\ tree'[p] = 5)) => \E q \in DOMAIN tree' : (q = p \/ Below(q, p)) /\ tree'[q] \in {5, None}]_vars
\* each day is one later than the one before
OneLater == [][mode = "dates" => Days(day'.y, day'.m, day'.d) = Days(day.y, day.m, day.d) + 1]_vars
Origins == SerialOrigin = 0 - 25569 /\ FileOrigin = 0 - 134774 /\ Days(1970, 1, 1) = 0
=============================================================================
