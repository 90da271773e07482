CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS TypeInv Exposing
POSTCONDITION Export
CHECK_DEADLOCK FALSE
