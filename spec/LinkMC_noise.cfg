SPECIFICATION Spec
CONSTANTS
W = 2
MaxSend = 3
Slots = 2
Faults = {"lose", "corrupt"}
INVARIANTS TypeOK NoFalseAlarm GapFlagged Unflagged ChecksumOk
CHECK_DEADLOCK FALSE
