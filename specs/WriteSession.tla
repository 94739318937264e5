---------------------------- MODULE WriteSession ----------------------------
(* A session of a process that saves signals to files of all formats and     *)
(* reads them back.  What a file holds is a function of the signal at the    *)
(* time it was saved, the format and the options alone; saving changes       *)
(* neither the signal, nor the options, nor any other file; what happens to  *)
(* the signal or to results of reads later doesn't reach the file.           *)
(*   Save(i, p)  save signal i at place p (over what is there)               *)
(*   Change(i)   the caller changes signal i in place                        *)
(*   Read(p)     read, look at the result, keep it                           *)
(*   Lazy(p)     read lazily, keep it;  Compute: look at the oldest one      *)
(*   Spoil       change all kept results in place                            *)
EXTENDS VF
CONSTANTS Signals, Places, MaxOps, Content(_, _)
VARIABLES hist, ver, file, kept, pending, seen, mem
wvars == <<hist, ver, file, kept, pending, seen, mem>>
None == <<0, 0>>
WInit == /\ hist = <<>> /\ ver = [i \in Signals |-> 0] /\ file = [p \in Places |-> None]
         /\ kept = FALSE /\ pending = <<>> /\ seen = <<>>
         /\ mem = [i \in Signals |-> Content(i, 0)]
Op(n, i, p) == [op |-> n, i |-> i, p |-> p]
Save(i, p) == /\ \A j \in 1..Len(pending) : pending[j] # p
              /\ file' = [file EXCEPT ![p] = <<i, ver[i]>>]
              /\ hist' = Append(hist, Op("save", i, p)) /\ UNCHANGED <<ver, kept, pending, seen, mem>>
Change(i)  == /\ ver[i] < 2 /\ \E p \in Places : file[p] = <<i, ver[i]>>
              /\ ver' = [ver EXCEPT ![i] = @ + 1]
              /\ mem' = [mem EXCEPT ![i] = Content(i, ver[i] + 1)]
              /\ hist' = Append(hist, Op("change", i, 0)) /\ UNCHANGED <<file, kept, pending, seen>>
Look(p)    == seen' = Append(seen, [at |-> Len(hist), p |-> p, got |-> Content(file[p][1], file[p][2])])
Read(p)    == /\ file[p] # None /\ Look(p) /\ kept' = TRUE
              /\ hist' = Append(hist, Op("read", 0, p)) /\ UNCHANGED <<ver, file, pending, mem>>
Lazy(p)    == /\ file[p] # None /\ pending' = Append(pending, p)
              /\ hist' = Append(hist, Op("lazy", 0, p)) /\ UNCHANGED <<ver, file, kept, seen, mem>>
Compute    == /\ pending # <<>> /\ Look(Head(pending)) /\ pending' = Tail(pending) /\ kept' = TRUE
              /\ hist' = Append(hist, Op("compute", 0, Head(pending))) /\ UNCHANGED <<ver, file, mem>>
Spoil      == /\ kept /\ kept' = FALSE
              /\ hist' = Append(hist, Op("spoil", 0, 0)) /\ UNCHANGED <<ver, file, pending, seen, mem>>
WNext == Len(hist) < MaxOps /\
         (Compute \/ Spoil \/ \E i \in Signals, p \in Places : Save(i, p) \/ Change(i) \/ Read(p) \/ Lazy(p))
WSpec == WInit /\ [][WNext]_wvars
\* the last save at a place before step n
LastSave(p, n) == LET S == {j \in 1..n : hist[j].op = "save" /\ hist[j].p = p} IN IF S = {} THEN 0 ELSE Max(S)
VerAt(i, n) == Cardinality({j \in 1..n : hist[j].op = "change" /\ hist[j].i = i})
\* a read gives the signal as it was when it was saved last at that place
Faithful == \A k \in 1..Len(seen) :
  LET n == LastSave(seen[k].p, seen[k].at) IN n > 0 /\ seen[k].got = Content(hist[n].i, VerAt(hist[n].i, n))
\* signals change only when the caller changes them
Untouched == \A i \in Signals : mem[i] = Content(i, VerAt(i, Len(hist)))
Complete == /\ pending = <<>> /\ hist # <<>> /\ hist[Len(hist)].op \in {"read", "compute"}
            /\ Cardinality({j \in 1..Len(hist) : hist[j].op = "save"}) >= 2
=============================================================================
