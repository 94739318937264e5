------------------------------ MODULE FormatsMC ------------------------------
(* Exhaustive check of the format table on small signals: no element is lost *)
(* or duplicated, the axes describe the data, and what came back comes back  *)
(* unchanged when it is written again (a second conversion loses nothing).   *)
EXTENDS Formats
CONSTANTS Sizes
VARIABLES fmt, x, o
ndims == [blockfile |-> {4, 3, 2}, emd |-> {1, 2, 3}, msa |-> {1}, ripple |-> {1, 2, 3}, mrcz |-> {3}, tiff |-> {2, 3}, tvips |-> {2, 3, 4},
          pantarhei |-> {1, 2, 3}, nexus |-> {1, 2, 3}, numpy |-> {1, 2, 3}, image |-> {2}, digitalsurf |-> {1, 2, 3}, semper |-> {1, 2, 3}]
sigdims == [blockfile |-> {2}, emd |-> {1, 2}, msa |-> {1}, ripple |-> {1, 2}, mrcz |-> {2}, tiff |-> {2}, tvips |-> {2},
            pantarhei |-> {1, 2}, nexus |-> {1, 2}, numpy |-> {1, 2}, image |-> {2, 0}, digitalsurf |-> {1, 2}, semper |-> {1, 2}]
dts == [blockfile |-> {"uint8"}, emd |-> {"float32"}, msa |-> {"float32"}, ripple |-> {"uint8", "int16", "float32"}, mrcz |-> {"float64"},
        tiff |-> {"uint8"}, tvips |-> {"uint8"}, pantarhei |-> {"float32"}, nexus |-> {"float32"}, numpy |-> {"int32"}, image |-> {"uint8"},
        digitalsurf |-> {"int16", "float64"}, semper |-> {"float16", "uint8", "int32"}]
Init ==
  /\ fmt \in DOMAIN ndims
  /\ \E n \in ndims[fmt], sg \in {k \in sigdims[fmt] : k <= 4}, dt \in dts[fmt], u \in {"nm", Null}, st \in {"", "EELS"}, t \in {"", "t"}, dd \in {Null, "2020-01-01"} :
       /\ sg <= n
       /\ \E sh \in [1..n -> Sizes] :
            x = [shape |-> sh, flat |-> [i \in 1..ProdSeq(sh) |-> 64 * i], dtype |-> dt,
                 axes |-> [i \in 1..n |-> [name |-> "n", units |-> IF fmt \in {"blockfile", "tvips", "msa"} THEN "nm" ELSE u, size |-> sh[i], scale |-> 512 * i, offset |-> i, scalem |-> 500,
                                           navigate |-> i <= n - sg]],
                 title |-> t, date |-> dd, time |-> IF dd = Null THEN Null ELSE "12:34:00", stype |-> st, beam |-> 0 - 1, tilt |-> 0 - 1, live |-> 0 - 1, extra |-> Null]
  /\ o \in [scaling : {""}, top : {255}, noscale : BOOLEAN, mode : {0, 1}, extra : {"null"}]
Next == UNCHANGED <<fmt, x, o>>
Spec == Init /\ [][Next]_<<fmt, x, o>>
W == Expected(fmt, x, o)
OK == ~Has(W, "rejected") /\ ~Has(W, "unspecified") /\ ~Has(W, "knownerror")
Elements == OK => ProdSeq(W.shape) = ProdSeq(x.shape) /\ (Has(W, "flat") => Len(W.flat) = Len(x.flat))
Described == OK => Len(W.axes) = Len(W.shape) /\ \A i \in 1..Len(W.axes) : W.axes[i].size = W.shape[i]
Whole(y) == DOMAIN x \subseteq DOMAIN y /\ \A i \in 1..Len(y.axes) : DOMAIN x.axes[1] \subseteq DOMAIN y.axes[i]
Stable == OK /\ Whole(W) /\ Len(W.shape) > 0 /\ (fmt = "blockfile" => Len(W.shape) = Len(x.shape)) /\ Len(Sigs(W)) \in 1..2 /\ W.stype \in DOMAIN MsaTypes
            => LET w2 == Expected(fmt, W, o) IN (DOMAIN w2 = DOMAIN W) => Same(w2, W, 0) = {}
=============================================================================
