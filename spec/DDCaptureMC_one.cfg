SPECIFICATION Spec
CONSTANTS Dim = 1 MaxT = 2 MaxGiven = 3 Sim = FALSE MaxMsgs = 5
INVARIANTS Exact Held
PROPERTIES Refines
VIEW View
CHECK_DEADLOCK FALSE
