SPECIFICATION Spec
CONSTANTS
  MaxT = 3
  MaxS = 3
  MaxN = 1
INVARIANTS RoundTrip OwnRange Disjoint ScoreIsDot Twin
CHECK_DEADLOCK FALSE
