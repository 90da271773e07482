SPECIFICATION Spec
INVARIANT AboutInv
PROPERTY Answered
CHECK_DEADLOCK FALSE
POSTCONDITION Export
