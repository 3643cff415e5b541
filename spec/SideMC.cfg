SPECIFICATION Spec
INVARIANTS FrameHolds AsAlone
CHECK_DEADLOCK FALSE
CONSTANTS
N = 3
V = 2
Depth = 5
Shared = FALSE
Names = 3
