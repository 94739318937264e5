--------------------------------- MODULE Bcf ---------------------------------
(* Bruker composite files.  A container (a file system in a file) holds items *)
(* cut into chunks that lie anywhere; tables of pointers, themselves chains   *)
(* of chunks, say where.  The map in it is a stream of pixels, each packed in *)
(* one of three ways, cut into blocks without regard to the pixels.  Read     *)
(* back, every channel of every pixel counts what was recorded there.         *)
EXTENDS VF
\* ---- the container: disk[k] is a chunk [next, table, tag]
RECURSIVE Chain(_, _, _)
Chain(disk, k, n) == IF n = 0 THEN <<>> ELSE disk[k].table \o Chain(disk, disk[k].next, n - 1)
\* the chunks of an item of n chunks, whose table starts at chunk k
Pointers(disk, k, n, per) == Sub(Chain(disk, k, Max2(1, CeilDiv(n, per))), 1, n)
\* ---- numbers, least significant byte first
U16(p, i) == p[i] + 256 * p[i + 1]
U32(p, i) == U16(p, i) + 65536 * U16(p, i + 2)
Little(p, i, n) == IF n = 1 THEN p[i] ELSE IF n = 2 THEN U16(p, i) ELSE U32(p, i)
\* ---- pixels
Pulses16(p, n) == [i \in 1..n |-> U16(p, (2 * i) - 1)]
Pulses12(p, n) ==
  [i \in 1..n |->
    LET b == (6 * ((i - 1) \div 4)) + 1  k == (i - 1) % 4 IN
    CASE k = 0 -> (p[b + 1] * 16) + (p[b] \div 16)
      [] k = 1 -> ((p[b] % 16) * 256) + p[b + 3]
      [] k = 2 -> (p[b + 2] * 16) + (p[b + 5] \div 16)
      [] k = 3 -> ((p[b + 5] % 16) * 256) + p[b + 4]]
\* instructions: size, number of channels, gain, values of half that size
BunchLen(s, n) == IF s = 0 THEN 2 ELSE 2 + s + (IF s = 1 THEN CeilDiv(n, 2) ELSE (n * s) \div 2)
Bunch(p, i) ==
  LET s == p[i]  n == p[i + 1]
      g == IF s = 0 THEN 0 ELSE Little(p, i + 2, s)
      v(j) == IF s = 0 THEN 0
              ELSE IF s = 1 THEN (LET b == p[i + 3 + (j \div 2)] IN IF j % 2 = 0 THEN b % 16 ELSE b \div 16)
              ELSE Little(p, i + 2 + s + ((j * s) \div 2), s \div 2)
  IN TLCEval([j \in 1..n |-> g + v(j - 1)])
RECURSIVE Bunches(_, _, _)
Bunches(p, i, last) == IF i > last THEN <<>> ELSE Bunch(p, i) \o Bunches(p, i + BunchLen(p[i], p[i + 1]), last)
\* counts by channel (channel c is at c + 1) of a pixel [flag, n, pay]
Tally(s0, m) == LET s == TLCEval(s0) IN [c \in 1..m |-> Cardinality({i \in 1..Len(s) : s[i] = c - 1})]
Counts(px, m) ==
  IF px.flag = 0 THEN Tally(Pulses16(px.pay, px.n), m)
  ELSE IF px.flag = 1 THEN Tally(Pulses12(px.pay, px.n), m)
  ELSE LET last == Len(px.pay) - 4 - (2 * px.n)
           b == TLCEval(Bunches(px.pay, 1, last))
           a == TLCEval(Tally(Pulses16(Sub(px.pay, last + 5, Len(px.pay)), px.n), m))
       IN [c \in 1..m |-> a[c] + (IF c <= Len(b) THEN b[c] ELSE 0)]
\* ---- the map: lines[y + 1] the pixels of a line; m the channels asked for
Block(lines, m, ds, y, x) ==
  LET ps == {<<r, i>> : r \in {r \in 1..Len(lines) : (r - 1) \div ds = y}, i \in 1..64} IN
  {q \in ps : q[2] <= Len(lines[q[1]]) /\ lines[q[1]][q[2]].x \div ds = x}
Cube(lines, w, h, nch, m, ds) ==
  [k \in 1..(CeilDiv(h, ds) * CeilDiv(w, ds)) |->
    LET y == (k - 1) \div CeilDiv(w, ds)  x == (k - 1) % CeilDiv(w, ds)
        b == Block(lines, m, ds, y, x)
        v == TLCEval([q \in b |-> TLCEval(Counts(lines[q[1]][q[2]], nch))])
    IN [c \in 1..m |-> IF c > nch THEN 0 ELSE FoldSet(LAMBDA q, s : s + v[q][c], 0, b)]]
\* ---- how many channels are asked for (energies in thousandths of 1.024 keV)
Nearest(h, kv) == {n \in 0..4096 : 2 * (kv - h.eoff - (n * h.elin)) \in (0 - h.elin)..h.elin}
Channels(h, sum, cut, kv) ==
  CASE cut = "none" -> {Len(sum)}
    [] cut = "zealous" -> {Max({i \in 1..Len(sum) : sum[i] # 0})}
    [] cut = "auto" -> IF h.hv * 1000 < h.amp THEN Nearest(h, h.hv * 1024) ELSE {Len(sum)}
    [] cut = "kv" -> Nearest(h, kv)
\* ---- what the header says
Mode(h, kw) == IF kw # "" THEN kw ELSE IF h.hv > 30 THEN "TEM" ELSE "SEM"
Space(h, ds, h0, w0) ==
  <<[name |-> "height", scale |-> (IF h.dx = 0 THEN 1024 ELSE h.dy) * ds, units |-> IF h.dx = 0 THEN "pix" ELSE "µm", size |-> h0, offset |-> 0],
    [name |-> "width", scale |-> (IF h.dx = 0 THEN 1024 ELSE h.dx) * ds, units |-> IF h.dx = 0 THEN "pix" ELSE "µm", size |-> w0, offset |-> 0]>>
Energy(h, m) == <<[name |-> "Energy", scale |-> h.elin, units |-> "keV", size |-> m, offset |-> h.eoff]>>
Lines == ("Cu" :> "Cu_Ka") @@ ("Au" :> "Au_Ma") @@ ("Zn" :> "Zn_La")
=============================================================================
