SPECIFICATION Spec
CONSTANTS Rows = 4 V = {0, 1, 3, 4} Try = {0, 1, 2} Intercept = TRUE
INVARIANTS Solved Least Plane
CHECK_DEADLOCK FALSE
