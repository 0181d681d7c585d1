CONSTANTS Cap = 2
 Prune = FALSE
 KeepZero = TRUE
SPECIFICATION Spec
INVARIANTS LowerBound Optimal Truthful CacheOk
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
