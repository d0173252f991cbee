SPECIFICATION Spec
CONSTANTS
  Kind = "TOF"
  PTs = {0, 1, 3}
  Steps = {0, 1, 2}
INVARIANT Safe
PROPERTIES TofGoes TofFull
CHECK_DEADLOCK FALSE
