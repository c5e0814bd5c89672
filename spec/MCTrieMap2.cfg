CONSTANTS Fan = 2 Levels = 2 Keys = 2 Vals = 2
SPECIFICATION Spec
INVARIANTS Canonical Refines Queries
CHECK_DEADLOCK FALSE
