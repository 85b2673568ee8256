SPECIFICATION Spec
CONSTANTS D = 2 Rows = 2 Cells <- MCells Grid <- MGrid C = 4 Signed = TRUE
INVARIANTS Right Majority
CHECK_DEADLOCK FALSE
