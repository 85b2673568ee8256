SPECIFICATION Spec
CONSTANTS Rows = 3 V = {0, 1, 3} Dirs <- MDirs Centre = TRUE
INVARIANTS Balanced Uncorrelated Leading Isometry
CHECK_DEADLOCK FALSE
