SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANT Laws
CHECK_DEADLOCK FALSE
