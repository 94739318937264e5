---------------------------------- MODULE Wdf ----------------------------------
(* A Renishaw WiRE file: spectra written one after the other into a file laid  *)
(* out for as many as were asked for, of which only the first may be there;    *)
(* their positions; named values in nested sets. Numbers are in thousandths.   *)
EXTENDS VF
Descends(w) == Len(w) > 1 /\ w[1] > w[2]
Upward(w) == IF Descends(w) THEN Reverse(w) ELSE w
Units == <<"", "1/cm", "nm", "nm", "eV", "µm", "counts", "electrons", "mm", "m", "K", "Pa", "s", "ms", "h", "d", "px", "", "", "°", "rad", "°C", "°F", "K/min", "ns", "µs">>
Unit(u) == IF u < Len(Units) THEN Units[u + 1] ELSE ""
SignalName(u) == CASE u = 1 -> "Raman Shift" [] u = 2 -> "Wavenumber" [] u \in {3, 5} -> "Wavelength" [] OTHER -> "Unknown"
Least(a, b) == IF a < b THEN a ELSE b
\* ---------------------------------------------------------------- layout
\* what is stored of spectrum s, channel c (from 0); of position p of axis k: the file has room for cap
DataAt(pts, s, c) == s * pts + c
OriginAt(cap, k, p) == k * (3 + cap) + 3 + p
\* ---------------------------------------------------------------- axes
Grid(name, units, off, scale, n) == [name |-> name, units |-> units, nav |-> TRUE, size |-> n, off |-> off, scale |-> scale, axis |-> <<>>]
Plain(name, n) == Grid(name, "none", -1, -1, n)
SignalAxis(e) ==
  LET w == Upward(e.w) IN
  [name |-> SignalName(e.xunit), units |-> Unit(e.xunit), nav |-> FALSE, size |-> Len(w), off |-> IF e.uniform THEN w[1] ELSE 0, scale |-> IF e.uniform THEN w[2] - w[1] ELSE 0,
   axis |-> IF e.uniform THEN <<>> ELSE w]
\* of a map that was not finished, the whole lines
MapAxes(e) ==
  LET m == e.map u == Unit(e.origins[1].unit) IN
  IF m.flag = 128 THEN <<Grid("Abs. Distance", u, 0, e.hyp, Least(m.size[1], e.num))>>
  ELSE <<Grid("Y", u, m.off[2], m.scale[2], IF e.num = e.cap THEN m.size[2] ELSE e.num \div m.size[1]), Grid("X", u, m.off[1], m.scale[1], m.size[1])>>
Positions(e) == SelectSeq(e.origins, LAMBDA o : o.type \notin {"BitFlags", "SpectrumDataChecksum"})
\* time only if the series is of nothing else
Travelled(e) == LET p == Positions(e) IN IF Len(p) = 1 THEN p ELSE SelectSeq(p, LAMBDA o : o.type # "Time")
SeriesAxes(e) ==
  LET o == Travelled(e)[1]  a == [i \in 1..e.num |-> o.a[i] - (IF o.type = "Time" THEN o.a[1] ELSE 0)] IN
  <<IF o.type = "FocusTrack_Z" \/ e.num = 1 \/ a[e.num] = a[1] THEN Plain(o.type, e.num)
    ELSE Grid(o.type, Unit(o.unit), a[1], (a[e.num] - a[1]) \div (e.num - 1), e.num)>>
NavAxes(e) == CASE e.mtype = 3 -> MapAxes(e) [] e.mtype = 2 -> SeriesAxes(e) [] OTHER -> <<>>
Sizes(axes) == [i \in 1..Len(axes) |-> axes[i].size]
Prod(s) == FoldSeq(LAMBDA x, y : x * y, 1, s)
\* ---------------------------------------------------------------- data
Row(e, row) == IF Descends(e.w) THEN Reverse(row) ELSE row
Mean(rows) == [i \in 1..Len(rows[1]) |-> FoldSeq(LAMBDA r, s : r[i] + s, 0, rows) \div Len(rows)]
\* spectra that belong to no position are averaged
Kept(e) == LET n == Prod(Sizes(NavAxes(e))) IN IF n = 1 /\ NavAxes(e) = <<>> /\ e.num > 1 /\ e.num = e.cap THEN <<Mean(e.rows)>> ELSE SubSeq(e.rows, 1, n)
Data(e) == FlattenSeq([i \in 1..Len(Kept(e)) |-> Row(e, Kept(e)[i])])
\* ---------------------------------------------------------------- sets of named values
\* an entry is a name with its number, a value with its number, or a set with its number
IsName(x) == x.t = "k"
NamesOf(s) == {x \in Range(s) : IsName(x)}
Named(s, x) == {y \in NamesOf(s) : y.key = x.key}
RECURSIVE Leaves(_)
Leaves(s) == UNION {LET n == (CHOOSE y \in Named(s, x) : TRUE).v IN
                    IF x.t = "p" THEN {[p |-> <<n>> \o q.p, v |-> q.v] : q \in Leaves(x.sub)} ELSE {[p |-> <<n>>, v |-> x.v]}
                    : x \in {x \in Range(s) : ~IsName(x) /\ Named(s, x) # {}}}
\* names of the whole that no value of it has, which values of the sets within have
Spare(s) == {y \in NamesOf(s) : ~\E x \in Range(s) : ~IsName(x) /\ x.key = y.key}
Loose(s) == SelectSeq(s, LAMBDA x : ~IsName(x) /\ Named(s, x) = {})
Subsets(s) == SelectSeq(s, LAMBDA x : x.t = "p" /\ Loose(x.sub) # <<>>)
RECURSIVE Extra(_, _)
Extra(s, spare) ==
  UNION {LET x == Subsets(s)[i]  me == "sub" \o ToString(i - 1) IN
         {[p |-> <<me, y.v>>, v |-> z.v] : <<y, z>> \in {<<y, z>> \in spare \X Range(Loose(x.sub)) : y.key = z.key}}
         \cup {[p |-> <<me, "subdicts">> \o q.p, v |-> q.v] : q \in Extra(x.sub, spare)}
         : i \in 1..Len(Subsets(s))}
\* values by the last of their names
Called(set, n) == {q.v : q \in {q \in set : q.p[Len(q.p)] = n}}
================================================================================
