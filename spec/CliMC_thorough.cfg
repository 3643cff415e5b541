SPECIFICATION Spec
INVARIANTS MachineIsMeaning OrderFree UnknownIgnored HelpWins
CHECK_DEADLOCK FALSE
CONSTANTS
MaxLen = 6
Opts = {"-dbc", "-out", "-rw", "-zz", "-help", "-drvname"}
