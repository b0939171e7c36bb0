SPECIFICATION Spec
CONSTANTS Nodes = {0, 1, 2} MaxEdges = 9 Modulus = 2
INVARIANTS Converges Correct
CHECK_DEADLOCK FALSE
