------------------------------ MODULE MigrationMC ------------------------------
(* One leaf after the other, in any order, version after version: the same as  *)
(* the direct map; nothing is lost on the way.                                 *)
EXTENDS Migration
CONSTANT N
VARIABLES tree, from, stage, first
vars == <<tree, from, stage, first>>
Paths == {<<"signal">>, <<"name">>, <<"x">>, <<"_internal_parameters", "folding">>, <<"Variance_estimation", "g">>, <<"TEM", "EELS", "c">>, <<"TEM", "EDS", "c">>,
          <<"TEM", "exposure">>, <<"TEM", "exposure_units">>, <<"TEM", "tilt_stage">>, <<"TEM", "Detector", "D">>, <<"SEM", "EDS", "c">>, <<"SEM", "tilt_stage">>,
          <<"Sample", "Xray_lines">>, <<"date">>, <<"signal_type">>} \cup {TEM \o <<"exposure_time">>, TEM \o <<"tilt_stage">>, SEM \o <<"k">>, TEM \o <<"exposure">>}
Trees == {[i \in S |-> [p |-> i, v |-> i]] : S \in {S \in SUBSET Paths : Cardinality(S) <= N}}
Rng(f) == {f[i] : i \in DOMAIN f}
\* a file does not have the new name beside the old one
NoClash(T, v) == Cardinality({x.p : x \in Migrate(T, v)}) = Cardinality(T)
Init == /\ tree \in {Rng(f) : f \in Trees} /\ from \in {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 2>>, <<3, 0>>, <<3, 3>>}
        /\ NoClash(tree, from)
        /\ \A m \in 1..3 : LET T == IF m = 1 THEN To11(tree) ELSE IF m = 2 THEN To12(To11(tree)) ELSE tree IN Cardinality({x.p : x \in T}) = Cardinality(tree)
        /\ stage = from /\ first = tree
Rules(x, v) ==
  IF Older(v, <<1, 1>>) THEN M11(x.p)
  ELSE IF Older(v, <<1, 2>>) THEN M12(x.p, HasPath(tree, <<"TEM", "EELS">>) \/ HasPath(tree, TEM \o <<"Detector", "EELS">>))
  ELSE IF Older(v, <<3, 0>>) THEN M30(x.p, HasPath(tree, Append(TEM, "exposure_time")) \/ HasPath(tree, TEM \o <<"Detector", "Camera", "exposure">>))
  ELSE x.p
Move == \E x \in tree : Rules(x, stage) # x.p /\ tree' = (tree \ {x}) \cup {[x EXCEPT !.p = Rules(x, stage)]} /\ UNCHANGED <<from, stage, first>>
Advance == /\ \A x \in tree : Rules(x, stage) = x.p
           /\ stage # <<3, 3>>
           /\ stage' = CASE Older(stage, <<1, 1>>) -> <<1, 1>> [] Older(stage, <<1, 2>>) -> <<1, 2>> [] Older(stage, <<3, 0>>) -> <<3, 0>> [] OTHER -> <<3, 3>>
           /\ UNCHANGED <<tree, from, first>>
Next == Move \/ Advance
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Kept == {x.v : x \in tree} = {x.v : x \in first} /\ Cardinality(tree) = Cardinality(first)
Direct == stage = <<3, 3>> => tree = Migrate(first, from)
Fixed == stage = <<3, 3>> => Migrate(tree, <<3, 3>>) = tree
Ends == <>(stage = <<3, 3>>)
================================================================================
