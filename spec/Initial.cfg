SPECIFICATION Spec
INVARIANT OutcomeInv
PROPERTY Decided
CHECK_DEADLOCK FALSE
POSTCONDITION Export
