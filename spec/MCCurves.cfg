SPECIFICATION Spec
CONSTANTS
  MaxP = 6
  MaxE = 4
INVARIANT Told
CHECK_DEADLOCK FALSE
