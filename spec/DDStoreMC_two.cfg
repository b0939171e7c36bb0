CONSTANTS Dim = 2 MaxT = 1 MaxUps = 2 MaxBatches = 3 MaxHandles = 1
SPECIFICATION Spec
INVARIANTS StoreInv ReadInv Agree
CHECK_DEADLOCK FALSE
