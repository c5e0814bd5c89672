SPECIFICATION TraceSpec
CONSTANT Weights <- TraceWeights
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
INVARIANT ShowState
PROPERTY AtMostOneWrite
PROPERTY IterSnapshot
POSTCONDITION TraceAccepted
