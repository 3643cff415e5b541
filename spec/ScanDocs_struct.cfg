SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS
NM = 2
NS = 2
Kinds = {"bo", "bad", "sg", "sgbad", "co", "tl", "ver", "junk"}
MaxLen = 5
MinEmit = 1
Defs = FALSE
