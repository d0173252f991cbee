SPECIFICATION Spec
CONSTANTS
  Kind = "CTUD"
  Below = 0
  Hi = 2
  MaxCalls = 3
INVARIANTS InRange Outputs EdgeMemorySkipsReset
PROPERTY Counts
CHECK_DEADLOCK FALSE
