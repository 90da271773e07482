SPECIFICATION Spec
INVARIANTS ParityInv SpinBlind Involution
CHECK_DEADLOCK FALSE
POSTCONDITION Export
