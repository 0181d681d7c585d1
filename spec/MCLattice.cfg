SPECIFICATION Spec
CONSTANTS
  MaxH = 5
  MaxW = 5
INVARIANTS InGrid EachPairOnce Count Features Transposed
CHECK_DEADLOCK FALSE
