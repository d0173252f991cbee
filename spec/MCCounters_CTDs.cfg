SPECIFICATION Spec
CONSTANTS
  Kind = "CTD"
  Below = 2
  Hi = 1
  MaxCalls = 4
INVARIANTS InRange Outputs EdgeMemorySkipsReset
PROPERTY Counts
CHECK_DEADLOCK FALSE
