SPECIFICATION Spec
CONSTANTS MaxUps = 2 Prog = "min"
INVARIANTS ClosedTimesExact ReportAllowed
PROPERTIES EventuallyFinished FrontierMonotone
CHECK_DEADLOCK FALSE
