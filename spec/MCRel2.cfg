CONSTANTS As = {"a", "b", "c"} Third = {}
SPECIFICATION Spec
INVARIANTS NestsOK JoinsOK AssocOK
CHECK_DEADLOCK FALSE
