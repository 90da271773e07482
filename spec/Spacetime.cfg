SPECIFICATION Spec
INVARIANT RegionInv
CHECK_DEADLOCK FALSE
POSTCONDITION Export
