-------------------------- MODULE WriteSessionGen --------------------------
(* Enumerates the sessions, and emits the complete ones.                     *)
EXTENDS WriteSession
Con(i, v) == i * 10 + v
EmitCases == Complete => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
