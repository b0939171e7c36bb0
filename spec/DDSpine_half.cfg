SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 7}
  Efforts = {2}
  Fuels = {2}
  Virtuals = {}
  MaxInserts = 12
  MaxOps = 12
  Effort = 1
  Cancel = 1
VIEW view
INVARIANTS NoClash Tiled Few Apart Forcible
CHECK_DEADLOCK FALSE
