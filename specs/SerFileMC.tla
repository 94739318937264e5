------------------------------ MODULE SerFileMC ------------------------------
(* An acquisition as a machine: elements are recorded one by one until it    *)
(* ends or is stopped; the arrangement of what is read must be right at any   *)
(* time the acquisition may stop.                                             *)
EXTENDS SerFile
CONSTANTS MaxSize
VARIABLES c
vars == <<c>>
Dim(n) == [size |-> n, off |-> 0, delta |-> 1, elem |-> 0, units |-> "meters"]
\* positions of a raster scan over dims (first one fastest when fast = 1)
Y(dims, fast, k) == IF Len(dims) = 1 THEN (IF fast THEN 0 ELSE k)
                    ELSE IF fast THEN k \div dims[1].size ELSE k % dims[2].size
Init == \E ds \in {<<Dim(a)>> : a \in 1..MaxSize} \cup {<<Dim(a), Dim(b)>> : a, b \in 1..MaxSize},
          kind \in {"spectrum", "image"}, fast, ov \in BOOLEAN :
   c = [dims |-> ds, kind |-> kind, h |-> 2, w |-> 3, onlyvalid |-> ov, fast |-> fast,
        total |-> ProdSeq([i \in 1..Len(ds) |-> ds[i].size]), valid |-> 1, tag |-> "xy",
        ypos |-> <<Y(ds, fast, 0)>>]
Record == /\ c.valid < c.total
          /\ c' = [c EXCEPT !.valid = @ + 1, !.ypos = Append(@, Y(c.dims, c.fast, c.valid))]
Next == Record
Spec == Init /\ [][Next]_vars
\* what was recorded is in the result, once
AllRecorded ==
  LET e == Elements(c) IN
  /\ Len(e) >= c.valid
  /\ \A k \in 0..(c.valid - 1) : Cardinality({i \in 1..Len(e) : e[i] = k}) = 1
\* nothing is filled in when only valid data is asked for of a series
NoFill == (Len(c.dims) = 1 /\ c.onlyvalid) => -1 \notin Range(Elements(c))
\* a complete acquisition is never filled
Complete == c.valid = c.total => -1 \notin Range(Elements(c))
\* in a scan stored fastest first, two elements of one row of the result are on one line
Rows == (Len(c.dims) = 2 /\ Reversed(c) /\ Len(Nav(c)) = 2 /\ c.fast) =>
   \A k \in 1..(c.valid - 1) :
      (c.ypos[k] = c.ypos[k+1]) <=> ((k-1) \div Nav(c)[2].size = k \div Nav(c)[2].size)
AxisPerDim == Len(Names(Nav(c), <<"x", "y">>)) = Len(NavShape(c))
=============================================================================
