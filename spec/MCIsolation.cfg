SPECIFICATION Spec
CONSTANTS N = 4
 Lims = {0, 1, 2, 3}
 TooDeep = FALSE
INVARIANTS Explained Holds
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
