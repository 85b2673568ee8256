SPECIFICATION Spec
CONSTANTS NC = 3
 Top = 3
 Strict = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
