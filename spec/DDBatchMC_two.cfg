SPECIFICATION Spec
INVARIANTS Conserved OnTime Tiles Tidy Seen
CHECK_DEADLOCK FALSE
CONSTANTS Dim = 2 MaxPush = 2
