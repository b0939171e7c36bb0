SPECIFICATION Spec
CONSTANTS MaxUps = 2 Prog = "join"
INVARIANTS ClosedTimesExact ReportAllowed
PROPERTIES EventuallyFinished FrontierMonotone
CHECK_DEADLOCK FALSE
