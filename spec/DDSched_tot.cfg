SPECIFICATION Spec
CONSTANTS
  Dims = {1}
  Nins = {1, 2, 3}
  Workers = {1, 1, 2}
  MaxTime = 6
  Keys = 2
  Vals = 3
  MaxActs = 20
INVARIANTS Emitted
CHECK_DEADLOCK FALSE
