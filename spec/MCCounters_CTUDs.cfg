SPECIFICATION Spec
CONSTANTS
  Kind = "CTUD"
  Below = 2
  Hi = 1
  MaxCalls = 3
INVARIANTS InRange Outputs EdgeMemorySkipsReset
PROPERTY Counts
CHECK_DEADLOCK FALSE
