SPECIFICATION Spec
INVARIANTS AnswerInv MirrorInv NestedInv
CHECK_DEADLOCK FALSE
POSTCONDITION Export
