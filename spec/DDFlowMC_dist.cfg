SPECIFICATION Spec
CONSTANTS MaxUps = 2 Prog = "dist"
INVARIANTS ClosedTimesExact ReportAllowed
PROPERTIES EventuallyFinished FrontierMonotone
CHECK_DEADLOCK FALSE
