SPECIFICATION GenSpec
CONSTANTS Size = 0 Inputs = 0 Fns = {"linear", "clamp", "twice", "mod"} W = {} Depth = 30 Gen = TRUE Links = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
