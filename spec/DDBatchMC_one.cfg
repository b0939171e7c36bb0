SPECIFICATION Spec
INVARIANTS Conserved OnTime Tiles Tidy Seen
CHECK_DEADLOCK FALSE
CONSTANTS Dim = 1 MaxPush = 3
