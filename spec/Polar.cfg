SPECIFICATION Spec
INVARIANTS IntervalInv EquatorInv PoleInv WideInv BeyondInv
CHECK_DEADLOCK FALSE
POSTCONDITION Export
