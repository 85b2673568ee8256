SPECIFICATION Spec
CONSTANTS N = 4
 Lims = {0, 1, 2, 3}
 TooDeep = TRUE
INVARIANTS Explained Holds
CHECK_DEADLOCK FALSE
