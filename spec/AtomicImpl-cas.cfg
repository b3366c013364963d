CONSTANTS
 Threads = {t1, t2, t3}
 Cells = {a, b}
 Vals = {0, 1}
 Mode = "cas"
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
