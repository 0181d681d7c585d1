SPECIFICATION Spec
CONSTANTS
  N = 3
  Periods = {1, 2, 3}
INVARIANTS LiveKept NoCache OnSchedule
PROPERTY Terminates
CHECK_DEADLOCK FALSE
