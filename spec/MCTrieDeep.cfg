CONSTANTS Fan = 2 Levels = 3 Keys = 4 Vals = 1
SPECIFICATION Spec
INVARIANTS Canonical Refines Queries
CHECK_DEADLOCK FALSE
