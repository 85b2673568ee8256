SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 2
 KMax = 3
 Sound = TRUE
 MetricNames = {"euclidean", "manhattan", "chebyshev", "canberra"}
INVARIANTS Correct SameSets
CHECK_DEADLOCK FALSE
