SPECIFICATION Spec
CONSTANTS F = 2 Rows = 3 Labels = {0, 1} Absent = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
