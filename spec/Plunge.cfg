SPECIFICATION Spec
INVARIANTS HorizonsAllowed Known ConventionInv
CHECK_DEADLOCK FALSE
POSTCONDITION Export
