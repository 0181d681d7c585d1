SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
 R = 1
 G = 4
INVARIANTS Weak Meet Round
