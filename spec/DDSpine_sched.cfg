SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 5, 9, 20}
  Efforts = {1, 5, 40}
  Fuels = {1, 4}
  Virtuals = {1, 3}
  MaxInserts = 30
  MaxOps = 30
  Effort = 1
  Cancel = 0
INVARIANTS NoClash Tiled Few Apart Emit
CHECK_DEADLOCK FALSE
