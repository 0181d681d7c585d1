CONSTANTS Cap = 1
 Prune = TRUE
 KeepZero = TRUE
SPECIFICATION Spec
INVARIANTS LowerBound Optimal Truthful CacheOk
PROPERTIES Monotone 
CHECK_DEADLOCK FALSE
