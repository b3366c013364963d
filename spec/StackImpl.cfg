SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Page = 2
  Max = 5
  Vals = {1}
INVARIANTS Contents Safe
PROPERTY RefStep
