CONSTANTS As = {"a", "b", "c"} Third = {{"b", "c"}}
SPECIFICATION Spec
INVARIANTS NestsOK JoinsOK AssocOK
CHECK_DEADLOCK FALSE
