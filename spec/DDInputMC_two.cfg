SPECIFICATION Spec
CONSTANTS NSess = 2 NColl = 1 Cap = 2 MaxTime = 1 Keys = 1 MaxOps = 5 Sim = FALSE
INVARIANTS Sound Whole Loose
VIEW View
CHECK_DEADLOCK FALSE
