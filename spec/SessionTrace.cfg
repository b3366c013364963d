SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sound Progress
POSTCONDITION Done
