SPECIFICATION Spec
INVARIANTS CellInv DistanceInv EndsInv
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
POSTCONDITION Export
