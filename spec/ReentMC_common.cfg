SPECIFICATION Spec
INVARIANTS AsAlone
CHECK_DEADLOCK FALSE
CONSTANTS
N = 3
Calls = 3
V = 5
Common = TRUE
