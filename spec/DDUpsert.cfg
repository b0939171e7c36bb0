SPECIFICATION Spec
CONSTANTS MaxTime = 2 Keys = 1 Vals = 2 MaxUps = 3
INVARIANTS Exact Covered Single
PROPERTIES OutOpen Finishes
CHECK_DEADLOCK FALSE
