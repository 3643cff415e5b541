SPECIFICATION Spec
INVARIANTS AsAlone
CHECK_DEADLOCK FALSE
CONSTANTS
N = 3
V = 2
Depth = 5
Shared = TRUE
Names = 3
