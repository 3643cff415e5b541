SPECIFICATION Spec
INVARIANTS NoRace AsAlone
CHECK_DEADLOCK FALSE
CONSTANTS
N = 4
Calls = 6
V = 5
Common = FALSE
