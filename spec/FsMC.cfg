SPECIFICATION Spec
INVARIANT Tree
PROPERTIES NothingTouched FreshPlace OnlyInside NothingLost SuppressedSurvive
CHECK_DEADLOCK FALSE
CONSTANTS
MaxNum = 1
Drivers = {"a"}
Depth = 4
