SPECIFICATION Spec
CONSTANTS K = 3 MaxRows = 5 Predicted = TRUE
INVARIANT Right All
CHECK_DEADLOCK FALSE
