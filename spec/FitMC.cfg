SPECIFICATION Spec
INVARIANTS RuleIsBits LongestFits Monotone
CHECK_DEADLOCK FALSE
CONSTANTS
MaxStart = 40
MaxLen = 34
MaxDlc = 5
