SPECIFICATION Spec
CONSTANTS
W = 1
MaxSend = 5
Slots = 2
Faults = {"lose", "dup"}
INVARIANTS TypeOK NoFalseAlarm GapFlagged Unflagged ChecksumOk
CHECK_DEADLOCK FALSE
