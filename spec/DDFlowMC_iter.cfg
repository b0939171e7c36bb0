SPECIFICATION Spec
CONSTANTS MaxUps = 2 Prog = "iter"
INVARIANTS ClosedTimesExact ReportAllowed
PROPERTIES EventuallyFinished FrontierMonotone
CHECK_DEADLOCK FALSE
