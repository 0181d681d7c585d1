SPECIFICATION Spec
CONSTANTS
  MaxT = 2
  MaxS = 3
  MaxN = 2
INVARIANTS RoundTrip OwnRange Disjoint ScoreIsDot Twin
CHECK_DEADLOCK FALSE
