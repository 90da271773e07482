SPECIFICATION Spec
CONSTANTS
  N = 8
  Rates = {1, 2, 3}
INVARIANTS HeightInv TurningInv TranslationInv LatticeInv EvenInv
PROPERTY Reversal
CHECK_DEADLOCK FALSE
POSTCONDITION Export
