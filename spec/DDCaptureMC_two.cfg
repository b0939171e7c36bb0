SPECIFICATION Spec
CONSTANTS Dim = 2 MaxT = 1 MaxGiven = 2 Sim = FALSE MaxMsgs = 3
INVARIANTS Exact Held
PROPERTIES Refines
VIEW View
CHECK_DEADLOCK FALSE
