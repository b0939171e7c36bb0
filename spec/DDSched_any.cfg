SPECIFICATION Spec
CONSTANTS
  Dims = {1, 2}
  Nins = {1, 2, 3}
  Workers = {1, 1, 2}
  MaxTime = 3
  Keys = 2
  Vals = 3
  MaxActs = 20
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
