SPECIFICATION Spec
INVARIANTS SameValue OneForm Settled TinyIs
CHECK_DEADLOCK FALSE
CONSTANTS
MaxDs = 4
Digs = {0, 1, 7}
Scs = {0, 1, 2, 3, 4, 5}
