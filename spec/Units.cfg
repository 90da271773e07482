SPECIFICATION Spec
INVARIANTS FactorInv TensInv ServeInv
CHECK_DEADLOCK FALSE
POSTCONDITION Export
