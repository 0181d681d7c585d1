SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  Ws = {2, 3, 4}
  Rounds = 2
INVARIANTS Matched OneVersion Window
PROPERTY Terminates
