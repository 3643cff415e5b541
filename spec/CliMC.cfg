SPECIFICATION Spec
INVARIANTS MachineIsMeaning OrderFree UnknownIgnored HelpWins
CHECK_DEADLOCK FALSE
CONSTANTS
MaxLen = 5
Opts = {"-dbc", "-out", "-rw", "-zz"}
