----------------------------- MODULE GenTimers -----------------------------
(* Behaviours of the timer specification, written out for replay: the same   *)
(* states and actions as MCTimers, one line per complete behaviour.          *)
EXTENDS MCTimers, TLC, Json
Emit == Len(h) = MaxCalls => PrintT(<<"H", ToJson(h)>>)
=============================================================================
