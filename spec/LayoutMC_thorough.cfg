SPECIFICATION Spec
CONSTANTS
Dlcs = {1, 2, 3}
Pairs = {1}
INVARIANTS OwnsBits DecodedInRange RoundTrip Walk
CHECK_DEADLOCK FALSE
