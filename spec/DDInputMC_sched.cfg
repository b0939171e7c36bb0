SPECIFICATION Spec
CONSTANTS NSess = 2 NColl = 2 Cap = 2 MaxTime = 4 Keys = 2 MaxOps = 18 Sim = TRUE
INVARIANTS Sound Whole Emitted
CHECK_DEADLOCK FALSE
