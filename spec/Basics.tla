------------------------------- MODULE Basics -------------------------------
(* Edge detectors and bistable function blocks.                              *)
EdgeFresh == [q |-> FALSE, mem |-> FALSE]
RTrig(s, clk) == [q |-> clk /\ ~s.mem, mem |-> clk]
FTrig(s, clk) == [q |-> ~clk /\ s.mem, mem |-> clk]

LatchFresh == [q |-> FALSE]
SetDominant(s, set, reset) == [q |-> set \/ (s.q /\ ~reset)]
ResetDominant(s, set, reset) == [q |-> ~reset /\ (set \/ s.q)]
=============================================================================
