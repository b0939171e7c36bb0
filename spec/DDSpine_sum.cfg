SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 3}
  Efforts = {1, 5}
  Fuels = {1}
  Virtuals = {2}
  MaxInserts = 8
  MaxOps = 9
  Effort = 1
  Cancel = 0
VIEW view
INVARIANTS NoClash Tiled Few Apart Forcible
CHECK_DEADLOCK FALSE
