----------------------------- MODULE MibFramesMC -----------------------------
EXTENDS MibFrames
CONSTANTS MaxN, MaxNav
VARIABLES n, nav, first, last
vars == <<n, nav, first, last>>
Ends == (-(MaxN+1)..(MaxN+1)) \cup {None}
Init == /\ n \in 1..MaxN
        /\ nav \in {<<>>} \cup {<<a>> : a \in 1..MaxNav} \cup ((1..MaxNav) \X (1..MaxNav))
        /\ first \in Ends /\ last \in Ends
        /\ SliceHi(last, n) > SliceLo(first, n)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
S == Arrange(n, nav, first, last)
F == FramesRead(n, nav, first, last)
\* no frame outside the file or the requested range is ever returned
OnlyRequested == \A i \in 1..Len(F) : F[i] >= SliceLo(first, n) /\ F[i] < SliceHi(last, n)
\* the frames are consecutive, each once
Consecutive == \A i \in 2..Len(F) : F[i] = F[i-1] + 1
\* a stack holds all that was asked for; an interrupted scan loses less than a line
NothingLost == /\ (nav = <<>> \/ (Len(S) = 1 /\ S # nav)) => Len(F) = SliceHi(last, n) - SliceLo(first, n)
               /\ (Len(nav) = 2 /\ ProdSeq(nav) > n /\ Len(S) = 2) =>
                     SliceHi(last, n) - Len(F) < nav[1]
\* a slice that can hold the scan has its shape
FullScan == (nav # <<>> /\ ProdSeq(nav) <= SliceHi(last, n) - SliceLo(first, n)) => S = Reverse(nav)
\* lines of equal length with a longer pause in between are recognised
Guess == \A len \in 2..MaxN, lines \in 2..3 :
   LET t == [i \in 1..(len * lines) |-> (i - 1) * 10 + ((i - 1) \div len) * 7] IN LineLength(t) = len
NoGuess == LineLength([i \in 1..n |-> i * 10]) = 1
=============================================================================
