------------------------------ MODULE MibFrames ------------------------------
(* Merlin .mib files: n frames one after the other; which of them are read   *)
(* and how they are arranged.  nav is the scan shape (x, y): x frames a line. *)
EXTENDS VF
None == -1000
\* ---- python slices
SliceLo(first, n) == IF first = None THEN 0
                     ELSE IF first < 0 THEN Max2(0, first + n) ELSE Min2(first, n)
SliceHi(last, n)  == IF last = None THEN n
                     ELSE IF last < 0 THEN Max2(0, last + n) ELSE Min2(last, n)
\* ---- arrangement: <<shape (slow axis first), number of frames used>>
Stack(k) == <<k>>
Arrange(n, nav, first, last) ==
  LET lo == SliceLo(first, n)  k == SliceHi(last, n) - lo  want == ProdSeq(nav) IN
  IF nav = <<>> THEN Stack(k)
  ELSE IF want > n                          \* interrupted: complete lines only
    THEN IF lo = 0 /\ Len(nav) > 1 THEN <<k \div nav[1], nav[1]>> ELSE Stack(k)
  ELSE IF k < want THEN Stack(k)
  ELSE Reverse(nav)
\* the frames returned, in C order of the navigation shape
FramesRead(n, nav, first, last) ==
  LET s == Arrange(n, nav, first, last) IN
  [i \in 1..ProdSeq(s) |-> SliceLo(first, n) + i - 1]
Squeeze(s) == SelectSeq(s, LAMBDA x: x # 1)
\* ---- shape guessed from the times at which the frames were recorded
\* (the first interval that is longer than the average ends the first line)
LineLength(times) ==
  LET n == Len(times)
      d == [i \in 1..(n-1) |-> times[i+1] - times[i]]
      long == {i \in 1..(n-1) : d[i] * (n-1) > times[n] - times[1]} IN
  IF n < 2 \/ long = {} THEN 1 ELSE Min(long)
=============================================================================
