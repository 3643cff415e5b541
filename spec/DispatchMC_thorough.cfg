SPECIFICATION Spec
INVARIANTS TreeIsLookup AtMostOne
CHECK_DEADLOCK FALSE
CONSTANT N = 15
