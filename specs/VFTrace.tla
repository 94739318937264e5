------------------------------ MODULE VFTrace ------------------------------
(* The trace-validation skeleton.  Every line of trace.ndjson is one event   *)
(* recorded from the real code.  A trace specification supplies              *)
(*   Step(st, e)   the model state after event e                             *)
(*   Bad(st, e)    the set of names of the clauses the event breaks          *)
(* The verdict is total: validation never stops at the first rejection.      *)
EXTENDS VF
CONSTANTS InitSt, Step(_, _), Bad(_, _)
VARIABLES l, st, fails
tvars == <<l, st, fails>>
\* read once (TLC would read the file again at every use)
Trace == TLCGet(1)
TraceInit == TLCSet(1, ndJsonDeserialize("trace.ndjson")) /\ l = 1 /\ st = InitSt /\ fails = <<>>
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ st' = Step(st, Trace[l])
  /\ LET b == Bad(st, Trace[l]) IN
       fails' = IF b = {} THEN fails
                ELSE Append(fails, [line |-> l, clauses |-> SetToSeq(b)])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Emit == (l = Len(Trace) + 1) =>
          JsonSerialize("verdict.json", [consumed |-> Len(Trace), fails |-> fails])
=============================================================================
