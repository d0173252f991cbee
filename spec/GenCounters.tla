---------------------------- MODULE GenCounters ----------------------------
EXTENDS MCCounters, TLC, Json
VARIABLE cv0
GInit == Init /\ cv0 = s.cv
GNext == Next /\ UNCHANGED cv0
GSpec == GInit /\ [][GNext]_<<vars, cv0>>
Emit == Len(h) = MaxCalls => PrintT(<<"H", ToJson([cv |-> cv0, h |-> h])>>)
=============================================================================
