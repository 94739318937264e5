------------------------------ MODULE BlocksMC ------------------------------
(* A reader that loads the blocks one by one, in any order, ends with the    *)
(* whole array, never having written an element twice.                        *)
EXTENDS Blocks
CONSTANTS MaxDim, MaxSize
VARIABLES shape, cut, todo, loaded, writes, fortran
vars == <<shape, cut, todo, loaded, writes, fortran>>
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o r : r \in Comps(n - k)} : k \in 1..n}
Shapes == UNION {[1..d -> 1..MaxSize] : d \in 1..MaxDim}
Init == /\ shape \in Shapes
        /\ cut \in {f \in [1..Len(shape) -> UNION {Comps(n) : n \in 1..MaxSize}] :
                       \A k \in 1..Len(shape) : f[k] \in Comps(shape[k])}
        /\ fortran \in BOOLEAN
        /\ todo = BlocksOf(cut) /\ loaded = {} /\ writes = 0
Pos(t) == IF fortran THEN FIndex(t, shape) ELSE CIndex(t, shape)
Load == \E b \in todo :
  LET ts == {t \in Tuples(shape) : InBlock(t, b)} IN
  /\ todo' = todo \ {b}
  /\ loaded' = loaded \cup {<<t, Pos(t)>> : t \in ts}
  /\ writes' = writes + Cardinality(ts)
  /\ UNCHANGED <<shape, cut, fortran>>
Next == Load
Spec == Init /\ [][Next]_vars
CutCovers == Covers(cut, shape)
NoOverlap == writes = Cardinality(loaded)
Whole == todo = {} => loaded = {<<t, Pos(t)>> : t \in Tuples(shape)}
\* every element of the file is read exactly once
EveryElement == todo = {} => {p[2] : p \in loaded} = 0..(ProdSeq(shape) - 1)
UnflatInverse == \A t \in Tuples(shape) : Unflat(CIndex(t, shape), shape) = t
=============================================================================
