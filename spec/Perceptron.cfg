SPECIFICATION Spec
CONSTANTS
  NS = 3
  Feats <- FDef
  MaxEpoch = 4
INVARIANTS SumOk DoneOk NormOk NovikoffOk
CHECK_DEADLOCK FALSE
