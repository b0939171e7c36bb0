SPECIFICATION Spec
CONSTANTS Dim = 2 MaxT = 1 MaxGiven = 4 Sim = TRUE MaxMsgs = 12
INVARIANTS Exact Emitted
CHECK_DEADLOCK FALSE
