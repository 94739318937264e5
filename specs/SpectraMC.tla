------------------------------- MODULE SpectraMC -------------------------------
(* A spectrometer records spectra position after position; channels in either  *)
(* order. Every count is found at its wavelength and position.                 *)
EXTENDS Spectra
CONSTANTS N
VARIABLES rows, shape, w
vars == <<rows, shape, w>>
Init == /\ shape \in (1..N) \X (1..N)
        /\ \E m \in 1..N : w \in {[i \in 1..m |-> i * 10], [i \in 1..m |-> (m - i) * 10], [i \in 1..m |-> i * i]}
        /\ rows = <<>>
\* the count tells where it was recorded
Record == /\ Len(rows) < shape[1] * shape[2]
          /\ rows' = Append(rows, [i \in 1..Len(w) |-> Len(rows) * 1000 + w[i]])
          /\ UNCHANGED <<shape, w>>
Spec == Init /\ [][Record]_vars
Full == Len(rows) = shape[1] * shape[2]
At(iy, ix, i) == Data(rows, w)[(((iy - 1) * shape[2] + ix - 1) * Len(w)) + i]
InPlace == Full => \A iy \in 1..shape[1], ix \in 1..shape[2], i \in 1..Len(w) : At(iy, ix, i) = ((iy - 1) * shape[2] + ix - 1) * 1000 + Upward(w)[i]
Ascends == \A i \in 1..Len(w) - 1 : Upward(w)[i] < Upward(w)[i + 1]
Ps == <<[name |-> "Y", units |-> "nm", a |-> [i \in 1..shape[1] |-> i]], [name |-> "X", units |-> "nm", a |-> [i \in 1..shape[2] |-> i]]>>
Shape == LET a == LabAxes(Ps, w, "W", "nm", FALSE) IN Full => FoldSeq(LAMBDA x, y : x.size * y, 1, a) = Len(Data(rows, w))
================================================================================
