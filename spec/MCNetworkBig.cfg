SPECIFICATION Spec
INVARIANTS Settles Linked Gradient
CONSTANTS Size = 4 Inputs = 1 Fns = {"linear", "clamp"} W = {0, 1, 2} Depth = 0 Gen = FALSE Links = TRUE
