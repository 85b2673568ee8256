SPECIFICATION Spec
INVARIANT Layered
PROPERTY Ends
CONSTANTS Shapes <- BigShapes W = {0, 1} Xs = {0, 1, 2} Offset = TRUE
