SPECIFICATION Spec
CONSTANTS
  Kind = "TP"
  MaxCalls = 4
  PTs = {0, 1, 3}
  Steps = {0, 1, 2}
INVARIANTS HistoryDefinesOutputs ETBounded EdgeMemory TonRunIsInput TofFreshStaysOff TpEveryPulseVisible
PROPERTY ETMonotone
CHECK_DEADLOCK FALSE
