---------------------------- MODULE GenInstances ----------------------------
(* Behaviours of MCInstances, written out for replay.                        *)
EXTENDS MCInstances, Json
Emit == n = MaxCalls => PrintT(<<"H", ToJson(log)>>)
=============================================================================
