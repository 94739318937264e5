-------------------------------- MODULE Tree --------------------------------
(* Trees of metadata: the values a user stores, and when two are the same.   *)
(* A term is [k |-> kind, ...]: none, bool, int, float, cplx, str, bytes,    *)
(* list, tuple, dict (keys sorted), arr (dtype, shape, content), ragged.     *)
EXTENDS VF
Numeric == {"bool", "int", "float", "cplx"}
AllNumeric(s) == \A i \in 1..Len(s) : s[i].k \in Numeric
MixedNumeric(s) == AllNumeric(s) /\ Cardinality({s[i].k : i \in 1..Len(s)}) > 1
\* strings and numbers in one list are all stored as strings
MixedText(s) == /\ \A i \in 1..Len(s) : s[i].k \in Numeric \cup {"str"}
                /\ \E i \in 1..Len(s) : s[i].k = "str"
                /\ \E i \in 1..Len(s) : s[i].k # "str"
AsText(t) == IF t.k = "str" THEN t.v ELSE t.s
RECURSIVE Same(_, _)
Same(t, o) ==
  IF t.k # o.k THEN FALSE
  ELSE CASE t.k = "none" -> TRUE
         [] t.k \in Numeric \cup {"str", "bytes", "other"} -> t.v = o.v
         [] t.k \in {"list", "tuple"} ->
              /\ Len(t.x) = Len(o.x)
              /\ IF MixedNumeric(t.x)  \* stored as one numeric type
                   THEN AllNumeric(o.x) /\ \A i \in 1..Len(t.x) : t.x[i].c = o.x[i].c
                 ELSE IF MixedText(t.x)
                   THEN \A i \in 1..Len(t.x) : o.x[i].k = "str" /\ o.x[i].v = AsText(t.x[i])
                   ELSE \A i \in 1..Len(t.x) : Same(t.x[i], o.x[i])
         [] t.k = "dict" -> /\ t.keys = o.keys
                            /\ \A i \in 1..Len(t.x) : Same(t.x[i], o.x[i])
         [] t.k = "arr" -> t.dt = o.dt /\ t.sh = o.sh /\ t.h = o.h
         [] t.k = "ragged" -> /\ t.sh = o.sh
                              /\ \A i \in 1..Len(t.x) : Same(t.x[i], o.x[i])
         [] OTHER -> FALSE
\* the path of the first difference, for the report
RECURSIVE Diff(_, _)
Diff(t, o) ==
  IF Same(t, o) THEN ""
  ELSE IF t.k # o.k THEN t.k \o "->" \o o.k
  ELSE IF t.k \in {"list", "tuple"} /\ Len(t.x) = Len(o.x) /\ ~MixedNumeric(t.x) /\ ~MixedText(t.x)
    THEN LET i == CHOOSE i \in 1..Len(t.x) : ~Same(t.x[i], o.x[i])
         IN t.k \o "/" \o Diff(t.x[i], o.x[i])
  ELSE IF t.k = "dict" /\ t.keys = o.keys
    THEN LET i == CHOOSE i \in 1..Len(t.x) : ~Same(t.x[i], o.x[i])
         IN "dict/" \o Diff(t.x[i], o.x[i])
  ELSE IF t.k = "dict" THEN "dict-keys"
  ELSE IF t.k = "arr" THEN IF t.dt # o.dt THEN "arr-dtype" ELSE IF t.sh # o.sh THEN "arr-shape" ELSE "arr-values"
  ELSE t.k \o "-value"
RECURSIVE Depth(_)
Depth(t) == IF t.k \in {"list", "tuple", "dict"}
              THEN 1 + (IF t.x = <<>> THEN 0 ELSE Max({Depth(t.x[i]) : i \in 1..Len(t.x)}))
              ELSE 0
=============================================================================
