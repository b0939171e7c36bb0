SPECIFICATION Spec
CONSTANTS
  Names = {"p", "q", "r"}
  Epochs = 6
  Keys = {0, 1}
  MaxOps = 30
  Hold = 1
  Sim = TRUE
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
