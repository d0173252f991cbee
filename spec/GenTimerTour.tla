---------------------------- MODULE GenTimerTour ----------------------------
(* A shortest history to every state of the complete timer model (state      *)
(* cover): TLC's breadth-first search keeps the first history of each state. *)
EXTENDS MCTimersLive, Sequences, TLC, Json
VARIABLE h
TInit == Init /\ h = <<>>
TNext == \E i \in BOOLEAN, p \in PTs, dt \in Steps :
           Call(i, p, dt) /\ h' = Append(h, [in |-> i, pt |-> p, dt |-> dt])
TSpec == TInit /\ [][TNext]_<<vars, h>>
TView == s
Emit == PrintT(<<"H", ToJson([h |-> h])>>)
=============================================================================
