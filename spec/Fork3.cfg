CONSTANTS Width = 3 Depth = 2 Gauge = 1 Cap = 3
SPECIFICATION Spec
INVARIANTS Answer Total Joined
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
