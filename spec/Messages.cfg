SPECIFICATION Spec
CONSTANTS Sweeps = 5
          Big = FALSE
INVARIANTS Sums Normal Legal Settles Finds Stays AtOnce
CHECK_DEADLOCK FALSE
