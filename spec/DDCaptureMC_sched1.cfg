SPECIFICATION Spec
CONSTANTS Dim = 1 MaxT = 3 MaxGiven = 4 Sim = TRUE MaxMsgs = 12
INVARIANTS Exact Emitted
CHECK_DEADLOCK FALSE
