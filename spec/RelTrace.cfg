SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
INVARIANT ShowState
POSTCONDITION TraceAccepted
