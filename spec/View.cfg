SPECIFICATION Spec
INVARIANTS RayInv NearerInv
CHECK_DEADLOCK FALSE
POSTCONDITION Export
