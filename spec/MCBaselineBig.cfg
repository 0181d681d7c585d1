SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
 R = 2
 G = 4
INVARIANTS Weak Meet Round
