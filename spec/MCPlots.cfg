SPECIFICATION Spec
CONSTANTS MaxP = 5
          MaxE = 3
INVARIANTS Told WellFormed Marked Together
CHECK_DEADLOCK FALSE
