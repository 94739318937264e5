---------------------------- MODULE JeolStreamMC ----------------------------
(* Exhaustive check of the design over every stream of bounded length over a *)
(* small range of positions and channels, and every combination of options.   *)
EXTENDS JeolStream
CONSTANTS N, W, H, MaxLen
VARIABLES stream, frames, c
vars == <<stream, frames, c>>
Divs(n) == {d \in 1..n : n % d = 0}
Base == [N |-> N, w |-> W, h |-> H, sweep |-> 3, flist |-> <<>>, shifts |-> <<>>, cut |-> -1,
         rebin |-> 1, dsx |-> 1, dsy |-> 1, sumf |-> FALSE, valid |-> FALSE]
Init == /\ stream = <<>> /\ frames = Start
        /\ \E rb \in Divs(N), a \in Divs(W), b \in Divs(H), v \in BOOLEAN :
             c = [Base EXCEPT !.rebin = rb, !.dsx = a, !.dsy = b, !.valid = v]
Next == /\ Len(stream) < MaxLen
        /\ \E k \in {X, Y, EM, EV}, v \in {0, N \div 2, N - 1} :
             /\ stream' = Append(stream, <<k, v>>)
             /\ frames' = Word(frames, <<k, v>>)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
NumOf(s, k) == Cardinality({i \in 1..Len(s) : s[i][1] = k})
All == [c EXCEPT !.valid = FALSE, !.sweep = MaxLen]
MachineIsFold == frames = Frames(stream)
\* nothing is lost when everything is asked for
EventsConserved == Len(Events(frames, All)) = NumOf(stream, EV)
ImageConserved == Len(Image(frames, All)) = NumOf(stream, EM)
InBounds == \A p \in Range(Events(frames, c)) :
   p[2] < H \div c.dsy /\ p[3] < W \div c.dsx /\ p[4] < N \div c.rebin
SumOfFrames ==
  LET a == Events(frames, [c EXCEPT !.sumf = TRUE])  b == Events(frames, c) IN
  a = [i \in 1..Len(b) |-> <<0, b[i][2], b[i][3], b[i][4]>>]
\* down-sampling and rebinning add up blocks of the full-resolution map
Blocks ==
  LET full == [c EXCEPT !.rebin = 1, !.dsx = 1, !.dsy = 1]
      a == Events(frames, [c EXCEPT !.valid = FALSE])
      b == Events(frames, [full EXCEPT !.valid = FALSE]) IN
  a = [i \in 1..Len(b) |-> <<b[i][1], b[i][2] \div c.dsy, b[i][3] \div c.dsx, b[i][4] \div c.rebin>>]
\* a list of one frame selects that frame; the whole is the sum of them
Selection ==
  LET n == Len(frames) IN
  Len(Events(frames, [All EXCEPT !.sumf = TRUE])) =
     SumSeq([i \in 1..n |-> Len(Events(frames, [All EXCEPT !.sumf = TRUE, !.flist = <<i-1>>]))])
\* asking only for complete frames never adds one
ValidIsSubset == Len(Returned(frames, [c EXCEPT !.valid = TRUE])) <= Len(Returned(frames, [c EXCEPT !.valid = FALSE]))
=============================================================================
