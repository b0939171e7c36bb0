SPECIFICATION Spec
CONSTANTS
  Dims = {3}
  Nins = {1, 2}
  Workers = {1, 1, 2}
  MaxTime = 2
  Keys = 2
  Vals = 3
  MaxActs = 24
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
