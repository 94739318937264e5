-------------------------- MODULE ReadSessionGen ---------------------------
(* Enumerates the sessions, and emits the complete ones.                     *)
EXTENDS ReadSession
Val(k, v) == k * 10 + v
EmitCases == Complete => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
