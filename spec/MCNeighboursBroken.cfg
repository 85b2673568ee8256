SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 2
 KMax = 2
 Sound = FALSE
 MetricNames = {"euclidean", "canberra"}
INVARIANTS Correct SameSets
CHECK_DEADLOCK FALSE
