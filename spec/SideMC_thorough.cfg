SPECIFICATION Spec
INVARIANTS FrameHolds AsAlone
CHECK_DEADLOCK FALSE
CONSTANTS
N = 3
V = 3
Depth = 6
Shared = FALSE
Names = 3
