SPECIFICATION Spec
CONSTANTS
  Kind = "TON"
  PTs = {0, 1, 3}
  Steps = {0, 1, 2}
INVARIANT Safe
PROPERTIES TonComes TonFull
CHECK_DEADLOCK FALSE
