SPECIFICATION Spec
CONSTANTS
  Truncate = TRUE
  MaxInt = 2
  Lab <- LabSmall
INVARIANTS Aligned Iterate DualTold Truthful Optimal
PROPERTY Ends
CHECK_DEADLOCK FALSE
