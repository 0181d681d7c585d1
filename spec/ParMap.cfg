SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Ws = {2, 3, 4}
  Rounds = 2
INVARIANTS Matched OneVersion Window
PROPERTY Terminates
