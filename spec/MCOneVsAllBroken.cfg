SPECIFICATION Spec
CONSTANTS NC = 3
 Top = 3
 Strict = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
