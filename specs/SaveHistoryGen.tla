--------------------------- MODULE SaveHistoryGen ---------------------------
(* Histories to replay: every pair of kinds, and random longer histories.     *)
EXTENDS VF
CONSTANTS NKinds, Depth, Ops, Fmt
VARIABLES hist, titles
Init == hist = <<>> /\ titles = {}
Op(op, t, k) == [op |-> op, title |-> t, kind |-> k]
Next ==
  /\ Len(hist) < Depth
  /\ \E op \in (IF titles = {} THEN {"w"} ELSE Ops), k \in 1..NKinds, t \in {"A", "B"} :
       /\ (op = "a" => Fmt = "hspy")
       /\ (op \in {"u", "s", "r", "c"} => t \in titles)
       /\ (titles = {} => t = "A")
       /\ hist' = Append(hist, Op(op, t, k))
       /\ titles' = IF op \in {"w", "c"} THEN {t} ELSE titles \cup {t}
       /\ (Len(hist') = Depth => PrintT(<<"CASE", ToJson(hist')>>))
Spec == Init /\ [][Next]_<<hist, titles>>
=============================================================================
