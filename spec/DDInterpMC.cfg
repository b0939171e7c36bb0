SPECIFICATION Spec
CONSTANTS
  Nodes = {0, 1, 2}
  MaxEdges = 4
INVARIANTS Closes Delays Leasts Strongs Shortest Collects
CHECK_DEADLOCK FALSE
