SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS RoundTrip SearchUnits FindMeans Cuts MidMeans EditMeans ReplaceMeans ConcatMeans OrderMeans LossyAgrees
CHECK_DEADLOCK FALSE
