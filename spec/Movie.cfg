SPECIFICATION Spec
INVARIANTS WindowInv InRange AgeInv CoverInv
PROPERTY AllDrawn
CHECK_DEADLOCK FALSE
POSTCONDITION Export
