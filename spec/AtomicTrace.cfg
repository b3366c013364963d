SPECIFICATION Spec
INVARIANT Progress
POSTCONDITION Done
CHECK_DEADLOCK FALSE
