SPECIFICATION Spec
CONSTANTS
  Family = "opt"
  Len3 = 3
  Cs = {1, 2}
  Its = {2, 4}
  Data = {1, 2}
INVARIANTS Sound Optimal
PROPERTY Apart
CHECK_DEADLOCK FALSE
