SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
CONSTANTS
NM = 2
NS = 2
Kinds = {"bo", "sg", "cm", "cs", "tl", "val", "tx", "cyc"}
MaxLen = 3
MinEmit = 1
Defs = FALSE
