CONSTANTS Dim = 1 MaxT = 3 MaxUps = 2 MaxBatches = 3 MaxHandles = 2
SPECIFICATION Spec
INVARIANTS StoreInv ReadInv Agree
CHECK_DEADLOCK FALSE
