SPECIFICATION Spec
CONSTANTS
  Kind = "CTU"
  Below = 2
  Hi = 1
  MaxCalls = 4
INVARIANTS InRange Outputs EdgeMemorySkipsReset
PROPERTY Counts
CHECK_DEADLOCK FALSE
