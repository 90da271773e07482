SPECIFICATION Spec
INVARIANT VerdictInv
PROPERTY OneBoundary
CHECK_DEADLOCK FALSE
POSTCONDITION Export
