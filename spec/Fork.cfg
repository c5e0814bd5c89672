CONSTANTS Width = 2 Depth = 2 Gauge = 2 Cap = 2
SPECIFICATION Spec
INVARIANTS Answer Total Joined
PROPERTIES Returns NoLeak
CHECK_DEADLOCK FALSE
