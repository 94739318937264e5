-------------------------------- MODULE Helpers --------------------------------
(* The public helpers: names of files that don't exist yet, directories, the   *)
(* question before overwriting; dates; colours; trees of metadata.             *)
EXTENDS VF
\* ---- files: fs maps the paths that exist to "file" or "dir"
Exists(fs, p) == p \in DOMAIN fs
Numbered(e, i) == e.dir \o e.stem \o "-" \o ToString(i) \o e.suf
RECURSIVE FirstFree(_, _, _)
FirstFree(fs, e, i) == IF Exists(fs, Numbered(e, i)) THEN FirstFree(fs, e, i + 1) ELSE Numbered(e, i)
Incremental(fs, e) == LET p == e.dir \o e.stem \o e.suf IN IF Exists(fs, p) THEN FirstFree(fs, e, e.i) ELSE p
Make(fs, p, kind) == [q \in DOMAIN fs \cup {p} |-> IF q \in DOMAIN fs THEN fs[q] ELSE kind]
\* a directory and the ones above it, unless there is a file of that name
Blocked(fs, parents) == \E i \in 1..Len(parents) : Exists(fs, parents[i]) /\ fs[parents[i]] = "file"
Ensured(fs, parents, p) ==
  IF Blocked(fs, parents) \/ Exists(fs, p) THEN fs
  ELSE LET new == {parents[i] : i \in 1..Len(parents)} \cup {p} IN [q \in DOMAIN fs \cup new |-> IF q \in DOMAIN fs THEN fs[q] ELSE "dir"]
\* is the question asked; how many answers are needed, and the outcome
Asks(fs, p, suf) == Exists(fs, p) /\ (fs[p] = "file" \/ suf = ".zspy")
Yes == {"y", "Y"}
No == {"n", "N"}
Needed(as) == LET I == {i \in 1..Len(as) : as[i] \in Yes \cup No} IN IF I = {} THEN 0 ELSE Min(I)
Overwrites(fs, p, suf, as) == IF ~Asks(fs, p, suf) THEN TRUE ELSE IF Needed(as) = 0 THEN FALSE ELSE as[Needed(as)] \in Yes
Asked(fs, p, suf, as) == IF ~Asks(fs, p, suf) THEN 0 ELSE IF Needed(as) = 0 THEN Len(as) + 1 ELSE Needed(as)
\* ---- dates: days since 1970-01-01 in the Gregorian calendar
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - (era * 400)
      doy == (((153 * (IF m > 2 THEN m - 3 ELSE m + 9)) + 2) \div 5) + d - 1
      doe == (yoe * 365) + (yoe \div 4) - (yoe \div 100) + doy IN
  (era * 146097) + doe - 719468
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
\* an instant: day, second of the day, microsecond
At(t) == LET s == (t.h * 3600) + (t.mi * 60) + t.s - (t.off * 60)
         IN [day |-> Days(t.y, t.m, t.d) + (s \div 86400), sec |-> s % 86400, us |-> t.us]
Within(a, b, tol) ==
  LET dd == a.day - b.day IN
  dd \in -1..1 /\ LET ds == (dd * 86400) + a.sec - b.sec IN ds \in -1..1 /\ ((ds * 1000000) + a.us - b.us) \in (0 - tol)..tol
SerialOrigin == Days(1899, 12, 30)
FileOrigin == Days(1601, 1, 1)
Serial(t) == [At(t) EXCEPT !.day = @ - SerialOrigin]
\* ISO texts
Pad(n, k) == LET t == ToString(n) IN IF Len(t) >= k THEN t ELSE FoldLeft(LAMBDA a, b: a \o b, "", Const(k - Len(t), "0")) \o t
IsoDate(t) == Pad(t.y, 4) \o "-" \o Pad(t.m, 2) \o "-" \o Pad(t.d, 2)
IsoTime(t) == Pad(t.h, 2) \o ":" \o Pad(t.mi, 2) \o ":" \o Pad(t.s, 2) \o (IF t.us = 0 THEN "" ELSE "." \o Pad(t.us, 6))
IsoZone(off) == LET a == IF off < 0 THEN 0 - off ELSE off IN (IF off < 0 THEN "-" ELSE "+") \o Pad(a \div 60, 2) \o ":" \o Pad(a % 60, 2)
\* what get_date_time_from_metadata gives, as text
Meta(e) ==
  IF ~e.hasdate /\ ~e.hastime THEN "none"
  ELSE IF ~e.hasdate THEN IsoTime(e.t)
  ELSE IF ~e.hastime THEN (IF e.form = "datetime64" THEN IsoDate(e.t) \o "T00:00:00" ELSE IsoDate(e.t))
  ELSE IsoDate(e.t) \o "T" \o IsoTime(e.t) \o (IF e.zone = "" \/ e.form = "datetime64" THEN "" ELSE IsoZone(e.t.off))
\* ---- trees of metadata: paths (sequences of keys) to values; -1 is a node, -2 is None
Node == 0 - 1
None == 0 - 2
Above(p) == {SubSeq(p, 1, k) : k \in 1..Len(p) - 1}
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
\* a leaf that is not None can't become a node
CanSet(tree, p) == {q \in Above(p) \cap DOMAIN tree : tree[q] \notin {Node, None}} = {}
SetItem(tree, p, v) ==
  [q \in {q \in DOMAIN tree : ~Below(p, q)} \cup Above(p) \cup {p} |-> IF q = p THEN v ELSE IF q \in Above(p) THEN Node ELSE tree[q]]
AddNode(tree, p) == [q \in DOMAIN tree \cup Above(p) \cup {p} |-> IF q \in Above(p) \cup {p} /\ (q \notin DOMAIN tree \/ tree[q] = None) THEN Node ELSE tree[q]]
HasItem(tree, p) == p \in DOMAIN tree /\ tree[p] # None
================================================================================
