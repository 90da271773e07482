SPECIFICATION Spec
INVARIANTS CountInv AboveInv
CHECK_DEADLOCK FALSE
