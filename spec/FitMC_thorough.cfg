SPECIFICATION Spec
INVARIANTS RuleIsBits LongestFits Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
MaxStart = 72
MaxLen = 66
MaxDlc = 9
