CONSTANTS
 Threads = {t1, t2, t3}
 Cells = {a, b}
 Vals = {0, 1}
 Mode = "val"
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
