CONSTANTS N = 2 L = 4
SPECIFICATION Spec
INVARIANTS Algebra InPlace
CHECK_DEADLOCK FALSE
