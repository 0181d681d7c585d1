SPECIFICATION Spec
CONSTANTS
  NS = 2
  Ds <- DDef
  Ls = {1, 2}
  MaxStep = 4
  LineSearch = TRUE
INVARIANTS Hull WeakDuality GapOk
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
