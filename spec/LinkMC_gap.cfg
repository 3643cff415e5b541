SPECIFICATION Spec
CONSTANTS
W = 2
MaxSend = 7
Slots = 3
Faults = {"lose", "dup", "reorder"}
INVARIANTS TypeOK NoFalseAlarm GapFlagged Unflagged ChecksumOk
CHECK_DEADLOCK FALSE
