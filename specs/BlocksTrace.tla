----------------------------- MODULE BlocksTrace -----------------------------
(* Judges memmap_distributed and the `chunks` argument of the readers.        *)
(*  map     one array read from a crafted file whose k-th element is k        *)
(*  slices  the block boundaries returned by get_chunk_slice                  *)
(*  reader  a sample file read with and without `chunks`                      *)
EXTENDS Blocks
VARIABLES l, st, fails
Init0 == 0
\* element n (C order) of the array that must be returned
WantAt(e, n) ==
  IF e.positions = <<>>
    THEN LET t == Unflat(n, e.shape) IN
         IF e.order = "F" THEN FIndex(t, e.shape) ELSE CIndex(t, e.shape)
    ELSE LET fs == ProdSeq(Sub(e.shape, Len(e.shape) - 1, Len(e.shape)))
             pos == Unflat(n \div fs, Sub(e.shape, 1, Len(e.shape) - 2))
             hits == {k \in 1..Len(e.positions) : e.positions[k] = pos} IN
         IF hits = {} THEN -1 ELSE ((Max(hits) - 1) * fs) + (n % fs)
\* the mark -1 (no frame there) must be read as zero
ValueAt(e, n) == LET w == WantAt(e, n) IN IF w = -1 THEN 0 ELSE w + e.base
BadMap(e) ==
  IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE LET o == e.obs IN
    If(o.shape = e.shape, "shape")
    \cup If(o.cshape = e.shape, "computed-shape")
    \cup If(o.dtype = e.dtype /\ o.cdtype = e.dtype, "dtype")
    \cup If(Covers(o.chunks, e.shape), "blocks-cover")
    \cup (IF Len(o.chunks) # Len(e.asked) THEN {} ELSE
          If(\A k \in 1..Len(e.asked) : Follows(o.chunks[k], e.shape[k], e.asked[k]), "blocks-asked"))
    \cup If(Len(o.flat) = ProdSeq(e.shape)
            /\ \A n \in 1..Len(o.flat) : o.flat[n] = ValueAt(e, n - 1), "values")
    \cup If(o.byblock = o.flat, "block-by-block")
BadSlices(e) ==
  IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE LET o == e.obs IN
    If(Covers(o.chunks, e.shape), "blocks-cover")
    \cup If(\A k \in 1..Len(e.asked) : Follows(o.chunks[k], e.shape[k], e.asked[k]), "blocks-asked")
    \cup If({o.slices[i] : i \in 1..Len(o.slices)} = BlocksOf(o.chunks)
            /\ Len(o.slices) = Cardinality(BlocksOf(o.chunks)), "slices")
BadSig(o, r, asked) ==
  If(o.shape = r.shape /\ o.dtype = r.dtype, "shape")
  \cup If(o.h = r.h, "values")
  \cup If(Covers(o.chunks, o.shape), "blocks-cover")
  \cup If(\A k \in 1..Len(asked) : Follows(o.chunks[k], o.shape[k], asked[k]), "blocks-asked")
BadReader(e) ==
  IF IsErr(e.obs) THEN {"error-" \o e.obs.err}
  ELSE IF Len(e.obs.sig) # Len(e.ref.sig) THEN {"number-of-signals"}
  ELSE UNION {BadSig(e.obs.sig[i], e.ref.sig[i], e.asked) : i \in 1..Len(e.obs.sig)}
Bad(s, e) == IF e.ev = "map" THEN BadMap(e) ELSE IF e.ev = "slices" THEN BadSlices(e) ELSE BadReader(e)
Step(s, e) == s
INSTANCE VFTrace WITH InitSt <- Init0
=============================================================================
