CONSTANTS Src <- Src1 Its = {0, 1} Atomic = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Denotes Distinct Complete
CHECK_DEADLOCK FALSE
