SPECIFICATION Spec
INVARIANTS NoMix GuardExact
PROPERTY PackageBuilds
CHECK_DEADLOCK FALSE
CONSTANT Vers = {0, 1, 2, 10}
