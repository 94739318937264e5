----------------------------- MODULE UnpicklerMC -----------------------------
(* All programs up to a length: no instruction, or combination of them, gets  *)
(* at a name that isn't on the list.                                          *)
EXTENDS Unpickler
CONSTANTS MaxLen
VARIABLES c, n
Names == {<<"numpy", "ndarray">>, <<"_codecs", "encode">>, <<"numpy", "load">>, <<"os", "ndarray">>, <<"_codecs", "ndarray">>}
Ops == [o : {"none", "mark", "edict", "etup", "tup1", "tup", "append", "setitem", "put", "dup", "pop", "popmark", "sglobal",
             "reduce", "newobj", "newobjex", "obj", "build", "persid", "stop"}]
       \cup {[o |-> "str", s |-> t] : t \in {"numpy", "load", "ndarray"}}
       \cup {[o |-> "get", i |-> 1]}
       \cup {[o |-> x, m |-> nm[1], n |-> nm[2]] : x \in {"global", "inst", "ext"}, nm \in Names}
Init == c = Start /\ n = 0
Next == n < MaxLen /\ c.fate = "run" /\ \E o \in Ops : c' = Exec(c, o) /\ n' = n + 1
Spec == Init /\ [][Next]_<<c, n>>
Fine(v) == v.k \in {"glob", "made"} => Allowed(v.m, v.n)
OnlyListed == /\ \A i \in 1..Len(c.stack) : Fine(c.stack[i])
              /\ \A i \in 1..Len(c.memo) : Fine(c.memo[i])
NothingElseCalled == \A x \in c.called : Allowed(x[1], x[2])
CallsAreOfLooked == c.called \subseteq c.looked
RefusedBeforeCalled == c.fate = "refused" => \A x \in c.looked : Allowed(x[1], x[2])
=============================================================================
