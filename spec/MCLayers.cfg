SPECIFICATION Spec
INVARIANT Layered
PROPERTY Ends
CONSTANTS Shapes <- SmallShapes W = {0, 1} Xs = {0, 1} Offset = TRUE
