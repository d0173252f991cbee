SPECIFICATION Spec
CONSTANT MaxCalls = 6
INVARIANTS EdgeDef SRDef RSDef
PROPERTY NeverTwoPulses
CHECK_DEADLOCK FALSE
