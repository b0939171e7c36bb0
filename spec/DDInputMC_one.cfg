SPECIFICATION Spec
CONSTANTS NSess = 1 NColl = 2 Cap = 2 MaxTime = 2 Keys = 1 MaxOps = 6 Sim = FALSE
INVARIANTS Sound Whole Loose
VIEW View
CHECK_DEADLOCK FALSE
