SPECIFICATION Spec
CONSTANTS Compilers = {1, 2}
 Blocks = {1, 2, 3}
INVARIANTS Accounted Separate NoLeak
PROPERTY Sticky
CHECK_DEADLOCK FALSE
