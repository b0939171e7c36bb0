SPECIFICATION Spec
INVARIANT Right
CONSTANT MaxRuns = 2
CHECK_DEADLOCK FALSE
