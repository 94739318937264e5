---------------------------- MODULE ReadSession ----------------------------
(* A session of a process that reads data files.  What a read returns is a   *)
(* function of the present contents of the file and of the options alone.    *)
(* Nothing else that happened in the session is part of the state a read     *)
(* depends on - other files read, what the path held before, results changed *)
(* in place or dropped, lazy results computed late - and reading changes no  *)
(* file.                                                                     *)
(*   Eager(k)   read, look at the result, keep it                            *)
(*   Lazy(k)    read lazily, keep it without computing                       *)
(*   Compute    look at the oldest pending lazy result                       *)
(*   Spoil      change all kept results in place                             *)
(*   Drop       forget all kept results                                      *)
(*   Replace(k) another file takes the place of k (no lazy result pending)   *)
EXTENDS VF
CONSTANTS Keys, MaxOps, Value(_, _)
VARIABLES hist, kept, pending, seen, files
rvars == <<hist, kept, pending, seen, files>>
RInit == /\ hist = <<>> /\ kept = <<>> /\ pending = <<>> /\ seen = <<>>
         /\ files = [k \in Keys |-> 1]
Op(n, k, v) == [op |-> n, k |-> k, v |-> v]
Look(k)  == seen' = Append(seen, [k |-> k, v |-> files[k], got |-> Value(k, files[k])])
Eager(k) == /\ kept' = Append(kept, Value(k, files[k])) /\ Look(k)
            /\ hist' = Append(hist, Op("eager", k, files[k])) /\ UNCHANGED <<pending, files>>
Lazy(k)  == /\ pending' = Append(pending, k)
            /\ hist' = Append(hist, Op("lazy", k, files[k])) /\ UNCHANGED <<kept, seen, files>>
Compute  == /\ pending # <<>>
            /\ Look(Head(pending))
            /\ kept' = Append(kept, Value(Head(pending), files[Head(pending)]))
            /\ pending' = Tail(pending)
            /\ hist' = Append(hist, Op("compute", Head(pending), files[Head(pending)]))
            /\ UNCHANGED files
Spoil    == /\ \E i \in 1..Len(kept) : kept[i] # 0
            /\ kept' = [i \in 1..Len(kept) |-> 0]
            /\ hist' = Append(hist, Op("spoil", 0, 0)) /\ UNCHANGED <<pending, seen, files>>
Drop     == /\ kept # <<>> /\ kept' = <<>>
            /\ hist' = Append(hist, Op("drop", 0, 0)) /\ UNCHANGED <<pending, seen, files>>
Replace(k) == /\ \A i \in 1..Len(pending) : pending[i] # k
              /\ \E i \in 1..Len(seen) : seen[i].k = k
              /\ files' = [files EXCEPT ![k] = 3 - @]
              /\ hist' = Append(hist, Op("replace", k, 3 - files[k]))
              /\ UNCHANGED <<kept, pending, seen>>
RNext == Len(hist) < MaxOps /\
         (Compute \/ Spoil \/ Drop \/ \E k \in Keys : Eager(k) \/ Lazy(k) \/ Replace(k))
RSpec == RInit /\ [][RNext]_rvars
\* a read is a function of what it reads
Functional == \A i \in 1..Len(seen) : seen[i].got = Value(seen[i].k, seen[i].v)
\* a lazy result is computed from the file it was read from
PendingStable == \A i \in 1..Len(pending) :
  \E j \in 1..Len(hist) : hist[j].op = "lazy" /\ hist[j].k = pending[i] /\ hist[j].v = files[pending[i]]
Complete == /\ pending = <<>> /\ Len(seen) >= 2
            /\ hist # <<>> /\ hist[Len(hist)].op \in {"eager", "compute"}
=============================================================================
