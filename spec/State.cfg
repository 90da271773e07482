SPECIFICATION Spec
INVARIANTS DecisionInv AllowedInv StableOutside AdmitsInv
PROPERTY KindConstant
CHECK_DEADLOCK FALSE
POSTCONDITION Export
