------------------------------ MODULE NexusFileMC ------------------------------
(* Any small tree: groups, NXdata groups, arrays and links are added until     *)
(* someone reads the file, in any of the ways a user may ask for.              *)
EXTENDS NexusFile
CONSTANTS Depth, Most
VARIABLE nodes
Names == <<"a", "b">>
Group(p, cls, sig, ax) == [path |-> p, t |-> "group", cls |-> cls, signal |-> sig, hasaxes |-> ax # <<>>, axes |-> ax, interp |-> "", default |-> "", attrs |-> TRUE, at |-> <<>>]
Array(p, n) == [path |-> p, t |-> "data", kind |-> "num", shape |-> <<n>>, id |-> p, v |-> "", at |-> <<>>]
Link(p, to) == [path |-> p, t |-> "link", to |-> to]
Ax == [name |-> "b", kind |-> "even", units |-> "nm", off |-> 1, step |-> 2]
Free == {p \in {<<x>> : x \in Range(Names)} \cup {<<x, y>> : x, y \in Range(Names)} \cup (IF Depth > 2 THEN {<<x, y, z>> : x, y, z \in Range(Names)} ELSE {}) :
         /\ ~\E n \in nodes : n.path = p
         /\ \E n \in nodes : n.path = Parent(p) /\ n.t = "group" /\ n.cls # "NXdata"}
Init == nodes = {Group(<<>>, "", "", <<>>)}
Few == Cardinality(nodes) < Most
AddGroup == \E p \in Free : /\ Few /\ Len(p) < Depth /\ nodes' = nodes \cup {Group(p, "NXentry", "", <<>>)}
AddArray == \E p \in Free, n \in {1, 2} : Few /\ nodes' = nodes \cup {Array(p, n)}
AddNX == \E p \in Free, n \in {1, 2}, ax \in {<<>>, <<Ax>>} :
           Few /\ nodes' = nodes \cup {Group(p, "NXdata", "a", ax), Array(Append(p, "a"), n)} \cup (IF ax = <<>> THEN {} ELSE {Array(Append(p, "b"), n)})
AddLink == \E p \in Free, to \in {n.path : n \in {n \in nodes : n.t = "data" \/ (n.t = "group" /\ n.cls = "NXdata")}} \cup {<<"nowhere">>} : Few /\ nodes' = nodes \cup {Link(p, to)}
Mark == \E n \in nodes, d \in Range(Names) :
          /\ n.t = "group" /\ n.cls # "NXdata" /\ n.default = "" /\ Len(n.path) < 2
          /\ nodes' = (nodes \ {n}) \cup {[n EXCEPT !.default = d]}
Next == AddGroup \/ AddArray \/ AddNX \/ AddLink \/ Mark
Spec == Init /\ [][Next]_nodes
E(keys, hard, use, only) ==
  [nodes |-> SetToSeq(nodes), names |-> Names, reserved |-> <<>>, keys |-> keys, paths |-> <<>>, mkeys |-> <<>>, hard |-> hard, nxonly |-> only, usedefault |-> use, skiparrays |-> FALSE,
   tab |-> <<[how |-> "in", part |-> "a", names |-> <<"a">>], [how |-> "in", part |-> "b", names |-> <<"b">>], [how |-> "ends", part |-> "", names |-> <<"", "a", "b">>], [how |-> "starts", part |-> "a", names |-> <<"a">>]>>]
Ids(s) == {s[i].id : i \in 1..Len(s)}
\* every array of the file is read, once, whether a group has it for signal or not
NothingLost ==
  LET e == E(<<>>, TRUE, FALSE, FALSE)  s == Signals(e) IN
  /\ {n.path : n \in {n \in nodes : n.t = "data" /\ n.shape = <<2>>}} \subseteq Ids(s)
  /\ Cardinality(Ids(s)) = Len(s)
  /\ Ids(s) = Ids(Signals([e EXCEPT !.hard = FALSE]))
\* keys leave things out and change the order, nothing else
Selects ==
  \A hard \in BOOLEAN, only \in BOOLEAN :
  LET all == Signals(E(<<>>, hard, FALSE, only))
      of(k) == Signals(E(k, hard, FALSE, only)) IN
  /\ \A k \in {<<<<"a">>>>, <<<<"b">>, <<"a">>>>, <<<<"", "a">>>>} : Range(of(k)) \subseteq Range(all)
  /\ Range(of(<<<<"b">>, <<"a">>>>)) = Range(all)
  /\ Range(of(<<<<"", "a">>>>)) \subseteq Range(of(<<<<"a">>>>))
  /\ Range(Signals(E(<<>>, hard, FALSE, TRUE))) \subseteq Range(all)
\* axes describe the data, dimension by dimension
AxesFit ==
  \A s \in Range(Signals(E(<<>>, FALSE, FALSE, FALSE))) :
    s.axes = <<>> \/ (Len(s.axes) = Len(s.shape) /\ \A i \in 1..Len(s.shape) : s.axes[i].n = s.shape[i] /\ s.axes[i].i = i - 1)
\* the default is one signal, or there is none
OneDefault ==
  \A hard \in BOOLEAN :
  LET e == E(<<<<"b">>>>, hard, TRUE, FALSE) IN
  IF TheDefault(e) = <<>> THEN Signals(e) = Signals([e EXCEPT !.usedefault = FALSE]) ELSE Len(Signals(e)) = 1
================================================================================
