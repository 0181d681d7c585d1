SPECIFICATION Spec
CONSTANTS
  NS = 2
  J <- JDef
  L = {1, 2}
  Grid <- GDef
  Limit = 4
INVARIANTS Descends CompletionHelps Fixpoint Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
