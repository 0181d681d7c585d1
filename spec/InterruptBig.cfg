SPECIFICATION Spec
CONSTANTS
  Truncate = TRUE
  MaxInt = 2
  Lab <- LabBig
INVARIANTS Aligned Iterate DualTold Truthful Optimal
PROPERTY Ends
CHECK_DEADLOCK FALSE
