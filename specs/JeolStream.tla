----------------------------- MODULE JeolStream -----------------------------
(* The word stream of a JEOL .pts file: marks giving the position of the     *)
(* beam, values of the electron image, and X-ray events.  A word is          *)
(* <<kind, value>>; positions and channels run over 0..N-1 whatever the size *)
(* of the map.  A frame ends where the y marks start to decrease.            *)
EXTENDS VF
X == 8   Y == 9   EM == 10   EV == 11

\* ---- the machine: one word at a time
NewFrame == [x |-> 0, y |-> 0, px |-> 0, py |-> -1, hasem |-> FALSE, ev |-> <<>>, em |-> <<>>]
Start == <<>>
Word(fr, w) ==
  LET n == Len(fr) IN
  IF n = 0 \/ (w[1] = Y /\ w[2] < fr[Max2(n, 1)].py)
    THEN Append(fr, IF w[1] = Y THEN [NewFrame EXCEPT !.y = w[2], !.py = w[2]]
                    ELSE IF w[1] = X THEN [NewFrame EXCEPT !.x = w[2], !.px = w[2]]
                    ELSE IF w[1] = EM THEN [NewFrame EXCEPT !.em = <<<<0, 0, w[2]>>>>, !.hasem = TRUE]
                    ELSE IF w[1] = EV THEN [NewFrame EXCEPT !.ev = <<<<0, 0, w[2]>>>>]
                    ELSE NewFrame)
    ELSE LET f == fr[n] IN
         [fr EXCEPT ![n] =
            IF w[1] = Y THEN [f EXCEPT !.y = w[2], !.py = w[2]]
            ELSE IF w[1] = X THEN [f EXCEPT !.x = w[2], !.px = w[2]]
            ELSE IF w[1] = EM THEN [f EXCEPT !.em = Append(@, <<f.y, f.x, w[2]>>), !.hasem = TRUE]
            ELSE IF w[1] = EV THEN [f EXCEPT !.ev = Append(@, <<f.y, f.x, w[2]>>)]
            ELSE f]
Frames(stream) == FoldLeft(Word, Start, stream)

\* ---- what a read with options c returns
StepX(c) == (c.N \div c.w) * c.dsx
StepY(c) == (c.N \div c.h) * c.dsy
Complete(f, c) == /\ f.py >= c.N - StepY(c)
                  /\ f.px >= c.N - StepX(c) \/ ~f.hasem
\* frames asked for that the file can hold, in the order asked
Requested(c) ==
  LET l == IF Len(c.flist) > 0 THEN c.flist ELSE ToSeq0(c.sweep + 1) IN
  SelectSeq(l, LAMBDA i: i >= 0 /\ i <= c.sweep /\ (Len(c.shifts) > 0 => i < Len(c.shifts)))
\* frames (numbers) that are returned
Returned(frames, c) ==
  SelectSeq(Requested(c), LAMBDA i: i < Len(frames) /\ (Complete(frames[i+1], c) \/ ~c.valid))
ShiftOf(i, c) == IF Len(c.shifts) = 0 THEN <<0, 0, 0>> ELSE c.shifts[i+1]
Req(c) == {Requested(c)[i] : i \in 1..Len(Requested(c))}
MaxShift(k, c) == Max({ShiftOf(i, c)[k] : i \in Req(c)})
MinShift(k, c) == Min({ShiftOf(i, c)[k] : i \in Req(c)})
Height(c) == c.h \div c.dsy + MinShift(1, c) - MaxShift(1, c)
Width(c)  == c.w \div c.dsx + MinShift(2, c) - MaxShift(2, c)
Channels(c) == IF c.cut >= 0 THEN c.cut ELSE c.N \div c.rebin
\* the cell <<frame, y, x, z>> of an event of the k-th returned frame, number i
CellOf(e, k, i, c) ==
  <<IF c.sumf THEN 0 ELSE k - 1,
    e[1] \div StepY(c) + ShiftOf(i, c)[1] - MaxShift(1, c),
    e[2] \div StepX(c) + ShiftOf(i, c)[2] - MaxShift(2, c),
    e[3] \div c.rebin + ShiftOf(i, c)[3]>>
Inside(p, c) == p[2] >= 0 /\ p[2] < Height(c) /\ p[3] >= 0 /\ p[3] < Width(c)
Events(frames, c) ==
  LET r == Returned(frames, c) IN
  FlattenSeq([k \in 1..Len(r) |->
     SelectSeq([j \in 1..Len(frames[r[k]+1].ev) |-> CellOf(frames[r[k]+1].ev[j], k, r[k], c)],
               LAMBDA p: Inside(p, c) /\ p[4] >= 0 /\ p[4] < Channels(c))])
\* the electron image: <<frame, y, x, value>>, values at one place add up
EmOf(e, k, i, c) ==
  LET p == CellOf(<<e[1], e[2], 0>>, k, i, c) IN <<p[1], p[2], p[3], e[3]>>
Image(frames, c) ==
  LET r == Returned(frames, c) IN
  FlattenSeq([k \in 1..Len(r) |->
     SelectSeq([j \in 1..Len(frames[r[k]+1].em) |-> EmOf(frames[r[k]+1].em[j], k, r[k], c)],
               LAMBDA p: Inside(p, c))])
=============================================================================
