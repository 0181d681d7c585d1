SPECIFICATION Spec
CONSTANTS
  Vals <- VDef
  MaxLen = 6
INVARIANTS MeanOk LinOk SqOk FwOk
CHECK_DEADLOCK FALSE
