--------------------------- MODULE GenCounterTour ---------------------------
(* A shortest history to every state of a counter over a tiny type, from     *)
(* every count (state cover).                                                *)
EXTENDS GenCounters
TView == s
Cover == PrintT(<<"H", ToJson([cv |-> cv0, h |-> h])>>)
=============================================================================
