CONSTANTS Fan = 2 Levels = 2 Keys = 4 Vals = 1 Destructive = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Emit
CHECK_DEADLOCK FALSE
