SPECIFICATION Spec
CONSTANTS Rows = 4 V = {0, 1, 3} Dirs <- LargeDirs Centre = TRUE
INVARIANTS Balanced Uncorrelated Leading Isometry
CHECK_DEADLOCK FALSE
