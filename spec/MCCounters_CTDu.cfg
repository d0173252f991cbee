SPECIFICATION Spec
CONSTANTS
  Kind = "CTD"
  Below = 0
  Hi = 2
  MaxCalls = 4
INVARIANTS InRange Outputs EdgeMemorySkipsReset
PROPERTY Counts
CHECK_DEADLOCK FALSE
