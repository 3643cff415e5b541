SPECIFICATION Spec
INVARIANT Tree
PROPERTIES NothingTouched FreshPlace OnlyInside NothingLost SuppressedSurvive
CHECK_DEADLOCK FALSE
CONSTANTS
MaxNum = 2
Drivers = {"a"}
Depth = 5
