----------------------------- MODULE GenBasics -----------------------------
EXTENDS MCBasics, TLC, Json
Emit == Len(h) = MaxCalls => PrintT(<<"H", ToJson([a |-> a0, b |-> b0, h |-> h])>>)
=============================================================================
