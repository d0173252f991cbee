SPECIFICATION Spec
CONSTANTS
  Kind = "CTU"
  Below = 0
  Hi = 2
  MaxCalls = 4
INVARIANTS InRange Outputs EdgeMemorySkipsReset
PROPERTY Counts
CHECK_DEADLOCK FALSE
