CONSTANTS Keys = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Emit Canonical Counts Refines
CHECK_DEADLOCK FALSE
