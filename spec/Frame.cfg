SPECIFICATION Spec
CONSTANTS
  Ops = {1, 2, 3}
  Args = {1, 2}
  Alias = {}
  Depth = 4
INVARIANTS Untouched Repeatable Kept
CHECK_DEADLOCK FALSE
