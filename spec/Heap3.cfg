CONSTANTS Ids = {1, 2, 3} NV = 2 MaxHeap = 3 Share = {}
SPECIFICATION Spec
INVARIANTS Persistent BuilderRight Owned
CHECK_DEADLOCK FALSE
