SPECIFICATION Spec
CONSTANTS
  Names = {"p", "q"}
  Epochs = 2
  Keys = {0}
  MaxOps = 6
  Hold = 1
  Sim = FALSE
INVARIANTS Faithful Kinds Provided Single
VIEW View
CHECK_DEADLOCK FALSE
