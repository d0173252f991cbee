SPECIFICATION Spec
CONSTANTS
  Kind = "TP"
  PTs = {0, 1, 3}
  Steps = {0, 1, 2}
INVARIANT Safe
PROPERTIES TpEnds TpRests TpIdle TpAnswers TpKeeps
CHECK_DEADLOCK FALSE
