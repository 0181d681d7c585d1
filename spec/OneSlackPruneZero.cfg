CONSTANTS Cap = 0
 Prune = TRUE
 KeepZero = FALSE
SPECIFICATION Spec
INVARIANTS LowerBound Optimal Truthful CacheOk
PROPERTIES Monotone 
CHECK_DEADLOCK FALSE
