SPECIFICATION Spec
INVARIANTS SameValue OneForm Settled TinyIs
CHECK_DEADLOCK FALSE
CONSTANTS
MaxDs = 3
Digs = {0, 1, 7}
Scs = {1, 2, 4, 5}
