SPECIFICATION Spec
CONSTANTS F = 2 Rows = 4 Labels = {0, 1, 2} Absent = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
