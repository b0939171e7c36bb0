SPECIFICATION Spec
CONSTANTS
  Nodes = {0, 1, 2}
  MaxEdges = 3
INVARIANTS Explains Ways Hops
CHECK_DEADLOCK FALSE
