CONSTANTS Depth = 2 Thin = FALSE
SPECIFICATION Spec
INVARIANTS Typed Emit
CHECK_DEADLOCK FALSE
