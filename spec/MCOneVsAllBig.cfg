SPECIFICATION Spec
CONSTANTS NC = 4
 Top = 4
 Strict = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
