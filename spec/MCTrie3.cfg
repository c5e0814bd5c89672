CONSTANTS Fan = 2 Levels = 2 Keys = 3 Vals = 1
SPECIFICATION Spec
INVARIANTS Canonical Refines Queries
CHECK_DEADLOCK FALSE
