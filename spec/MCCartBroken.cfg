SPECIFICATION Spec
CONSTANTS N = 3
 Crits = {"gini", "entropy", "mse", "mae"}
 Greedy = FALSE
INVARIANTS Finished Useful
CHECK_DEADLOCK FALSE
