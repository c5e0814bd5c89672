CONSTANTS NR = 2 N = 2 Maps = TRUE Weights <- NoWeights
SPECIFICATION Spec
INVARIANTS Sane Answers
PROPERTIES AtMostOneWrite IterSnapshot BuilderDetached WritesOnly
CHECK_DEADLOCK FALSE
