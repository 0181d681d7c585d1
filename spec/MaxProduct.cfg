SPECIFICATION Spec
INVARIANTS Exact Sound Legal
CHECK_DEADLOCK FALSE
