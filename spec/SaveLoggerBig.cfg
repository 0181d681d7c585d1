SPECIFICATION Spec
CONSTANTS
  N = 4
  Periods = {1, 2, 3, 5}
INVARIANTS LiveKept NoCache OnSchedule
PROPERTY Terminates
CHECK_DEADLOCK FALSE
