SPECIFICATION Spec
CONSTANTS
  Skip = {}
  Kinds = {"graph", "chain", "grid", "dgrid", "edgefeat", "multilabel", "multiclass", "binary", "lgraph", "lgrid", "ldgrid", "lnode", "eflnode"}
  Flips = 1
INVARIANTS Fits SymFits Known Accepts Refuses
CHECK_DEADLOCK FALSE
